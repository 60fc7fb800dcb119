"""C14: only options that satisfy the administrator's specification are ever applied.

The real application with a backend that starts nothing; random specifications
(every field type, bounds, choices with mutable values, targets, handlers that
mutate, raise or return nonsense, options per user, sync and async) and random
requests, alone and concurrent.  An independent validator says what each request
must lead to; what was recorded, what the cluster class was configured with and
what the handler was given are compared with it, and after every request the
specification and every choice must still be what the administrator wrote.  The
same values go through the client's Options built from the specification, and
its widgets.
"""
import asyncio
import copy
import json
import warnings

from traitlets import Any
from traitlets.config import Config

from mon import core, dbworld, gw as gwmod, vloop

RULE = "a request is accepted exactly when the reference validator accepts it, and what is recorded and configured is what the specification and handler say"
USERS = ["alice", "bob", "carol"]
MISSING = object()
ACCEPT, REFUSE, EITHER = "accept", "refuse", "either"


def dump(x):
    """A comparable form; 1, 1.0 and True differ, NaN equals itself."""
    return json.dumps(x, sort_keys=True, default=repr)


def scalar(r):
    return r.choice([None, True, False, 0, 1, -1, 7, 2**53 + 1, 2**63, -(2**70), 10**400, 0.0, -0.0, 1.5, 1e308, -2.25, float("nan"), float("inf"), float("-inf"),
                     "", "a", "true", "1", "nan", "a\nb", "\u2028", "\ud800", "x" * 200, [], {}, [1], {"a": 1}, [[]], {"a": {"b": [1, {"c": None}]}}])


def mutable(r):
    return r.choice([[1, 2], {"k": 1}, {"k": [1]}, "plain", 3, None, [{"deep": [0]}]])


class Spec:
    """One option as the administrator writes it, independent of the code's classes."""

    def __init__(self, r, k):
        self.name, self.kind = f"f{k}", r.choice(["String", "Bool", "Integer", "Float", "Select", "Mapping", "Integer", "Float"])
        self.target = f"t{k}" if r.random() < 0.6 else None
        self.label = r.choice([None, "A label", "<b>"])
        self.lo = self.hi = None
        if self.kind in ("Integer", "Float"):
            conv = float if self.kind == "Float" else int
            # Bounds of a float option may be written as integers
            shape = (lambda v: v) if r.random() < 0.3 else conv
            b = sorted(r.sample([-5, -1, 0, 1, 2, 7, 100], 2))
            mode = r.choice(["none", "lo", "hi", "both", "both", "same"])
            if mode in ("lo", "both"):
                self.lo = shape(b[0])
            if mode in ("hi", "both"):
                self.hi = shape(b[1])
            if mode == "same":
                self.lo = self.hi = shape(b[0])
            inside = [v for v in range(-6, 102) if self.check(v)[0] == ACCEPT]
            self.default = shape(r.choice(inside))
        elif self.kind == "String":
            self.default = r.choice(["", "dflt", "é"])
        elif self.kind == "Bool":
            self.default = r.random() < 0.5
        elif self.kind == "Mapping":
            self.default = r.choice([None, {}, {"d": 1}, {"d": {"e": [1, 2]}}])
        else:
            keys = r.sample(["a", "b", "c", "", "a\nb", "1", "true"], r.randint(1, 4))
            self.written = [(q, mutable(r)) if r.random() < 0.7 else q for q in keys]
            self.choices = {q[0] if isinstance(q, tuple) else q: q[1] if isinstance(q, tuple) else q for q in self.written}
            self.pristine = copy.deepcopy(self.choices)
            self.default = r.choice(keys) if r.random() < 0.5 else None
        self.pristine_default = copy.deepcopy(self.default)

    def build(self):
        from dask_gateway_server import options as o

        kw = {}
        if self.target:
            kw["target"] = self.target
        if self.label:
            kw["label"] = self.label
        if self.kind == "Select":
            return o.Select(self.name, self.written, default=self.default, **kw)
        if self.kind in ("Integer", "Float"):
            kw.update(min=self.lo, max=self.hi)
        return getattr(o, self.kind)(self.name, default=copy.deepcopy(self.default) if self.kind != "Mapping" else self.default, **kw)

    def final_default(self):
        if self.kind == "Select":
            return self.default if self.default is not None else list(self.choices)[0]
        if self.kind == "Mapping":
            return copy.deepcopy(self.pristine_default) or {}
        return float(self.default) if self.kind == "Float" else self.default

    def check(self, v):
        """(verdict, value recorded if accepted)"""
        if self.kind == "String":
            return (ACCEPT, v) if type(v) is str else (REFUSE, None)
        if self.kind == "Bool":
            return (ACCEPT, v) if type(v) is bool else (REFUSE, None)
        if self.kind == "Mapping":
            return (ACCEPT, v) if type(v) is dict else (REFUSE, None)
        if self.kind == "Select":
            return (ACCEPT, v) if type(v) is str and v in self.pristine else (REFUSE, None)
        if type(v) is bool:
            return EITHER, None  # Python takes it for a number
        if self.kind == "Integer" and type(v) is not int:
            return REFUSE, None
        if type(v) not in (int, float):
            return REFUSE, None
        if v != v:
            return (REFUSE, None) if self.lo is not None or self.hi is not None else (EITHER, v)
        if self.lo is not None and v < self.lo or self.hi is not None and v > self.hi:
            return REFUSE, None
        if self.kind == "Float":
            try:
                v = float(v)
            except OverflowError:
                return REFUSE, None
            if v in (float("inf"), float("-inf")):
                return EITHER, v
        return ACCEPT, v

    def transformed(self, v):
        return copy.deepcopy(self.pristine[v]) if self.kind == "Select" else copy.deepcopy(v)

    def key(self):
        return self.target or self.name

    def value(self, r):
        x = r.random()
        if x < 0.45:
            return self.good(r)
        if x < 0.7:
            return scalar(r)
        if self.kind in ("Integer", "Float"):
            edges = [b + d for b in (self.lo, self.hi) if b is not None for d in (-1, 0, 1, -1e-9, 1e-9)] or [0, 0.5]
            return r.choice(edges)
        if self.kind == "Select":
            return r.choice(["zzz", "A", " a", 1, True, None])
        return scalar(r)

    def good(self, r):
        if self.kind == "String":
            return r.choice(["", "s", "é\u2028", "a\nb"])
        if self.kind == "Bool":
            return r.random() < 0.5
        if self.kind == "Mapping":
            return copy.deepcopy(r.choice([{}, {"d": 2}, {"x": {"y": [1]}, "n": None}, {"": ""}]))
        if self.kind == "Select":
            return r.choice(list(self.pristine))
        inside = [v for v in (*range(-6, 102), 10**6, -(10**6)) if self.check(v)[0] == ACCEPT]
        v = r.choice(inside)
        if self.kind == "Float" and r.random() < 0.5 and self.check(v + 0.25)[0] == ACCEPT:
            v = v + 0.25
        return v

    def describe(self):
        return dict(name=self.name, kind=self.kind, target=self.target, lo=self.lo, hi=self.hi, default=self.pristine_default, choices=getattr(self, "written", None))


def wreck(x):
    """What a careless handler does to a value it was given."""
    if isinstance(x, dict):
        for v in list(x.values()):
            wreck(v)
        x["wrecked"] = 1
    elif isinstance(x, list):
        for v in x:
            wreck(v)
        x.append("wrecked")


class Menu:
    """What one user is offered: fields, handler, the handler's log."""

    def __init__(self, r, names):
        self.r = r
        self.specs = [Spec(r, k) for k in r.sample(range(8), r.choice([0, 1, 2, 3, 4, 5]))]
        self.mode = r.choice(["none", "one", "two", "star", "wreck", "wreck", "raise", "junk", "badvalue", "rename"])
        if self.mode in ("none",):
            for k, s in enumerate(self.specs):
                s.target = f"t{k}"  # a trait of the cluster's configuration
        self.calls = []
        self.bad_if = r.choice([0.0, 0.3, 1.0])
        self.options = None

    def result(self, given, user):
        """The handler proper: a function of what it is given."""
        if self.mode == "rename":
            return {"t7": {"all": dict(given), "n": len(given)}}
        out = {f"t{k}": v for k, (_, v) in enumerate(sorted(given.items()))}
        if self.mode in ("two", "star"):
            out["t7"] = user
        return out

    def handle(self, options, user):
        given = dict(options)
        self.calls.append((dump(given), getattr(user, "name", None)))
        if self.mode == "raise":
            raise (ValueError, RuntimeError, KeyError)[len(self.calls) % 3]("no\nway")
        if self.mode == "junk":
            return [None, 5, "x", [1]][len(self.calls) % 4]
        if self.mode == "badvalue":
            return {"worker_cores": ["x", -1, None, 1.5][len(self.calls) % 4]}
        out = copy.deepcopy(self.result(given, getattr(user, "name", None)))
        if self.mode == "wreck":
            for v in given.values():
                wreck(v)
        return out

    def build(self):
        from dask_gateway_server.options import Options

        h = {
            "none": None,
            "one": lambda options: self.handle(options, None),
            "star": lambda *a: self.handle(*a),
            "rename": lambda options: self.handle(options, None),
            "wreck": lambda options: self.handle(options, None),
        }.get(self.mode, lambda options, user: self.handle(options, user))
        self.options = Options(*[s.build() for s in self.specs], handler=h)
        return self.options

    def expect(self, body):
        """(verdict, recorded, config) of a request's cluster_options"""
        verdict, recorded = ACCEPT, {}
        if set(body) - {s.name for s in self.specs}:
            return REFUSE, None, None
        for s in self.specs:
            v = body.get(s.name, MISSING)
            if v is MISSING:
                recorded[s.name] = s.final_default()
                continue
            one, value = s.check(v)
            if one == REFUSE:
                return REFUSE, None, None
            if one == EITHER:
                verdict = EITHER
            recorded[s.name] = value
        if self.mode in ("raise", "junk", "badvalue"):
            return REFUSE, None, None
        return verdict, recorded, None

    def config(self, recorded, user):
        given = {s.key(): s.transformed(recorded[s.name]) for s in self.specs}
        if self.mode == "none":
            return given, given
        return given, self.result(given, user if self.mode in ("two", "star") else None)

    def body(self, r):
        out = {s.name: s.value(r) if r.random() < 0.35 else s.good(r) for s in self.specs if r.random() < 0.75}
        if r.random() < 0.06:
            out[r.choice(["nope", "t0", "", "worker_cores", "F0"])] = r.choice([1, None, "x"])
        return out


def classes():
    from dask_gateway_server.backends.base import ClusterConfig
    from dask_gateway_server.backends.db_base import DBBackendBase

    Conf = type("Conf", (ClusterConfig,), {f"t{k}": Any("unset") for k in range(8)})

    class Nothing(DBBackendBase):
        async def do_setup(self):
            pass

        async def do_cleanup(self):
            pass

        async def do_start_cluster(self, cluster):
            yield {}

        async def do_stop_cluster(self, cluster):
            pass

        async def do_check_clusters(self, clusters):
            return [True] * len(clusters)

        async def do_check_workers(self, workers):
            return [True] * len(workers)

    return Conf, Nothing


def case(ck, i):
    r = ck.rng("case", i)
    dbworld.prepare((ck.seed, i))
    menus = {u: Menu(r, USERS) for u in USERS}
    how = r.choice(["shared", "sync", "async", "rebuild"])
    if how == "shared":
        for u in USERS[1:]:
            menus[u] = menus[USERS[0]]
    hist = [how] + [dict(user=u, mode=m.mode, fields=[s.describe() for s in m.specs]) for u, m in menus.items()]
    label = [None]

    def bad(key, detail):
        raise core.Violation(key, f"{label[0]}: {detail}"[:1500], hist)

    built = {}

    def offered(user):
        if how == "rebuild":
            return menus[user.name].build()
        return built[user.name]

    async def offered_async(user):
        await asyncio.sleep(r.choice([0, 0, 0.1, 1]))
        return built[user.name]

    async def main(loop):
        Conf, Nothing = classes()
        for u in USERS:
            if u == USERS[0] or how != "shared":
                built[u] = menus[u].build()
        c = Config()
        c.Nothing.cluster_config_class = Conf
        c.DBBackendBase.db_url = "sqlite://"
        gateway = await gwmod.build(Nothing, c)
        backend = gateway.backend
        backend.cluster_options = built[USERS[0]] if how == "shared" else offered if how in ("sync", "rebuild") else offered_async
        specs = {}
        for u in USERS:
            resp = await gwmod.request(gateway.app, "GET", "/api/v1/options", gwmod.basic(u))
            if resp.status != 200:
                bad("specification-unavailable", f"answered {resp.status} {resp.exc!r}")
            specs[u] = resp.json["cluster_options"]
            describe(specs[u], menus[u])
        clusters = {}

        def describe_again(u, now):
            if dump(now) != dump(specs[u]):
                bad("specification-changed", f"{u}'s specification was {dump(specs[u])} and is now {dump(now)}")
            for s in menus[u].specs:
                if s.kind == "Select" and how != "rebuild":
                    f = [f for f in menus[u].options.fields if f.field == s.name][0]
                    if dump(dict(f.options)) != dump(s.pristine):
                        bad("choices-changed", f"the choices of {s.name} were {dump(s.pristine)} and are now {dump(dict(f.options))}")

        async def create(u):
            m = menus[u]
            body = m.body(r)
            label[0] = f"{u} ({m.mode}) asks {body!r}"
            msg = {"cluster_options": body} if body or r.random() < 0.5 else r.choice([{}, {"cluster_options": None}])
            before = set(backend.db.name_to_cluster)
            verdict, recorded, _ = m.expect(body)
            given = conf = None
            if recorded is not None:
                given, conf = m.config(recorded, u)
            calls = len(m.calls)
            hist.append([u, json.loads(json.dumps(msg))])
            return u, m, copy.deepcopy(body), verdict, recorded, given, conf, calls, before, await gwmod.request(gateway.app, "POST", "/api/v1/clusters/", gwmod.basic(u), js=msg)

        async def judge(u, m, body, verdict, recorded, given, conf, calls, before, resp, alone):
            label[0] = f"{u} ({m.mode}) asks {body!r}"
            ck.count("requests")
            if resp.status == 201:
                if verdict == REFUSE:
                    bad("invalid-accepted", "accepted")
                ck.count("accepted")
                name = resp.json["name"]
                cl = backend.db.name_to_cluster[name]
                if verdict == EITHER:
                    ck.count("either")
                    return
                clusters[name] = (u, recorded, conf)
                check_cluster(name)
                if alone and m.mode not in ("none",):
                    if len(m.calls) != calls + 1:
                        bad("handler-calls", f"the handler ran {len(m.calls) - calls} times")
                    if m.calls[-1][0] != dump(given):
                        bad("handler-given", f"the handler was given {m.calls[-1][0]}, not {dump(given)}")
                    if m.mode in ("two", "star") and m.calls[-1][1] != u:
                        bad("handler-user", f"the handler was given user {m.calls[-1][1]}")
                ck.count("missing_defaults", len(m.specs) - len(body))
            else:
                if verdict == ACCEPT:
                    bad("valid-refused", f"refused with {resp.status} {resp.exc!r} {resp.body[:200]!r}")
                if resp.status != 422:
                    bad("refused-badly", f"answered {resp.status} {resp.exc!r}")
                ck.count("refused")
                if alone and set(backend.db.name_to_cluster) != before:
                    bad("refused-but-created", "a cluster was created all the same")
                if alone and len(m.calls) != calls and m.mode not in ("raise", "junk", "badvalue") and verdict == REFUSE:
                    bad("handler-ran", f"the handler ran on invalid options: {m.calls[-1]}")

        def check_cluster(name):
            u, recorded, conf = clusters[name]
            cl = backend.db.name_to_cluster[name]
            if dump(cl.options) != dump(recorded):
                bad("recorded-options", f"recorded {dump(cl.options)}, must be {dump(recorded)}")
            got = {k: cl.config.get(k) for k in (f"t{k}" for k in range(8))}
            want = {k: conf.get(k, "unset") for k in got}
            if dump(got) != dump(want):
                bad("configuration", f"configured {dump(got)}, must be {dump(want)}")

        for step in range(r.choice([4, 8, 14])):
            crowd = [r.choice(USERS) for _ in range(1 if r.random() < 0.6 else r.randint(2, 4))]
            done = await asyncio.gather(*(create(u) for u in crowd))
            for d in done:
                await judge(*d, alone=len(crowd) == 1)
            for u in USERS:
                resp = await gwmod.request(gateway.app, "GET", "/api/v1/options", gwmod.basic(u))
                if resp.status != 200:
                    bad("specification-unavailable", f"answered {resp.status} {resp.exc!r}")
                describe_again(u, resp.json["cluster_options"])
            for n in clusters:
                check_cluster(n)
            if clusters and r.random() < 0.5:
                n = r.choice(list(clusters))
                u, recorded, _ = clusters[n]
                resp = await gwmod.request(gateway.app, "GET", f"/api/v1/clusters/{n}", gwmod.basic(u))
                if resp.status != 200 or dump(resp.json["options"]) != dump(recorded):
                    bad("shown-options", f"shown as {resp.status} {resp.body[:300]!r}, must be {dump(recorded)}")
            await asyncio.sleep(r.choice([0, 1]))
        # What is stored
        import dask_gateway_server.backends.db_base as db_base

        with backend.db.db.begin() as conn:
            rows = list(conn.execute(db_base.clusters.select()))
        for row in rows:
            if row.name in clusters and dump(row.options) != dump(clusters[row.name][1]):
                bad("stored-options", f"stored {dump(row.options)}, must be {dump(clusters[row.name][1])}")
        ck.count("clusters", len(clusters))
        for u in set(USERS if how != "shared" else USERS[:1]):
            client(ck, r, specs[u], menus[u], bad, label, hist)
        await backend.cleanup()
        ck.case((how, tuple(dump(h) for h in hist[1:])), bool(clusters))

    def describe(spec, m):
        """The specification says what the administrator wrote."""
        want = []
        for s in m.specs:
            t = {"String": "string", "Bool": "bool", "Integer": "int", "Float": "float", "Select": "select", "Mapping": "mapping"}[s.kind]
            d = {"type": t}
            if t in ("int", "float"):
                conv = (lambda v: v) if t == "int" else float
                d.update(min=None if s.lo is None else conv(s.lo), max=None if s.hi is None else conv(s.hi))
            if t == "select":
                d["options"] = list(s.pristine)
            want.append({"field": s.name, "label": s.label or s.name, "default": s.final_default(), "spec": d})
        # A default may be shown as it was written
        shown = [dict(d, default=float(d["default"])) if d["spec"]["type"] == "float" else d for d in spec]
        if dump(shown) != dump(want):
            bad("specification", f"the specification is {dump(spec)}, must be {dump(want)}")

    vloop.run(main)


def client(ck, r, spec, m, bad, label, hist):
    import yaml

    from dask_gateway.options import Options

    opts = Options._from_spec(json.loads(json.dumps(spec)))
    if list(opts) != [s.name for s in m.specs]:
        bad("client-fields", f"the client shows {list(opts)}")
    for s in m.specs:
        if dump(opts[s.name]) != dump(s.final_default()):
            bad("client-default", f"{s.name}: {opts[s.name]!r}, must be {s.final_default()!r}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        show = r.random() < 0.3
        widget = opts._widget() if show else None
    inputs = {}
    if widget is not None:
        cells = widget.children[1].children
        for k, s in enumerate(m.specs):
            inputs[s.name] = (cells[3 * k + 1], cells[3 * k + 2])
    current = {s.name: s.final_default() for s in m.specs}

    def agrees(s):
        w = inputs[s.name][0]
        v = opts[s.name]
        if s.kind == "Mapping":
            return
        if dump(w.value) != dump(v) and not (type(v) is float and v == w.value):
            bad("widget-differs", f"{s.name}: the widget shows {w.value!r}, the option is {v!r}")

    for _ in range(12):
        if not m.specs:
            break
        s = r.choice(m.specs)
        v = s.value(r)
        label[0] = f"client sets {s.describe()} to {v!r}"
        verdict, value = s.check(v)
        ck.count("client_sets")
        if show and (verdict != ACCEPT or s.kind in ("Integer", "Float") and not -(2**50) < v < 2**50):
            continue  # a widget has types of its own
        try:
            if r.random() < 0.5:
                opts[s.name] = v
            else:
                setattr(opts, s.name, v)
            took = True
        except Exception:
            took = False
        if verdict != EITHER:
            if took != (verdict == ACCEPT):
                bad("client-accepts" if took else "client-refuses", "the server would not agree")
            if took:
                current[s.name] = value
            if dump(opts[s.name]) != dump(current[s.name]):
                bad("client-value", f"is now {opts[s.name]!r}, must be {current[s.name]!r}")
        elif took:
            current[s.name] = opts[s.name]
        if show:
            agrees(s)
    for name in ("nope", "t0" if "t0" not in current else "zz"):
        for f, exc in ((lambda: opts[name], KeyError), (lambda: getattr(opts, name), AttributeError), (lambda: opts.__setitem__(name, 1), KeyError), (lambda: setattr(opts, name, 1), AttributeError)):
            try:
                f()
                bad("client-unknown", f"option {name} does not exist but was taken")
            except exc:
                pass
    # Whatever the client holds is acceptable
    verdict = [s.check(opts[s.name])[0] for s in m.specs]
    if REFUSE in verdict:
        bad("client-holds-invalid", f"holds {dict(opts)}")
    if widget is None:
        return
    for s in m.specs:
        for _ in range(4):
            w, status = inputs[s.name]
            if s.kind == "Mapping":
                text, want = r.choice([("{a: 1}", {"a": 1}), ("", {}), ("x: [1, 2]", {"x": [1, 2]}), ("[1]", None), ("{a", None), ("5", None), ('{"b": null}', {"b": None}), ("\t", {})])
                label[0] = f"{s.name}: the widget's text becomes {text!r}"
                was = dump(opts[s.name])
                if w.value == text:
                    continue
                w.value = text
                if want is not None and dump(opts[s.name]) != dump(want) or want is None and dump(opts[s.name]) != was:
                    bad("widget-mapping", f"the option is {opts[s.name]!r}")
                if (want is None) != bool(status.value):
                    bad("widget-status", f"the status is {status.value!r}")
            elif s.kind == "Select":
                w.value = r.choice(list(s.pristine))
                agrees(s)
            elif s.kind == "Bool":
                w.value = r.random() < 0.5
                agrees(s)
            elif s.kind == "String":
                w.value = r.choice(["", "typed"])
                agrees(s)
            else:
                v = r.choice([-1000, 1000, 0, 3, s.good(r)])
                v = float(v) if s.kind == "Float" else v
                label[0] = f"{s.describe()}: the widget is set to {v!r}"
                try:
                    w.value = v
                except Exception as exc:
                    bad("widget-out-of-bounds", f"the widget, now {w.value!r}, takes what the option refuses: {exc!r}")
                agrees(s)
                if s.check(w.value)[0] == REFUSE:
                    bad("widget-out-of-bounds", f"the widget shows {w.value!r}")
            ck.count("widget_sets")


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(30, 900))
    ck.need(requests=3000, accepted=800, refused=800, client_sets=2000, widget_sets=500, clusters=500)


if __name__ == "__main__":
    core.main("C14", RULE, body, assumptions=["booleans given where a number is asked for, and infinities where nothing bounds them, are not judged"])
