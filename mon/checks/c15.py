"""C15: a cluster's resource limits hold for every configuration.

The real path from a request to a cluster's configuration (a backend with a
configuration file, an options handler returning overrides, every cluster
configuration class that works here), with resource values split at random
between the sections of the file and the overrides, given in any order, dense
around the limits.  The oracle recomputes everything from the effective values
with exact fractions.
"""
import asyncio
import warnings
from fractions import Fraction

from traitlets.config import Config

from mon import core, gw as gwmod

RULE = "effective values are override, else file, else default; worker limit is the exact floor; refused iff the scheduler alone exceeds a limit"
UNIT = {"K": 2**10, "M": 2**20, "G": 2**30, "T": 2**40}
INVALID = object()


def size(v):
    if isinstance(v, (int, float)):
        return int(v)
    if v[-1:] not in UNIT:
        return INVALID
    try:
        return int(float(v[:-1]) * UNIT[v[-1]])
    except (ValueError, OverflowError):
        return INVALID


def memory(r, near=None):
    x = r.random()
    if near is not None and x < 0.4:
        return max(1, near + r.choice([-1, 0, 1, -1024, 1024]))
    if x < 0.7:
        n = r.choice([1, 2, 3, 4, 8, 10, 16, 0.5, 1.5, 2.25, 0.1])
        u = r.choice("MGGG")
        return r.choice([f"{n} {u}", f"{n}{u}", f"{n}  {u}"])
    if x < 0.8:
        return r.choice(["1 T", "4096 K", "1e3 M", "0.001 T", "1048576K"])
    if x < 0.95:
        return r.choice([2**30, 2**31, 3 * 2**30, 10**9, 10**10, 1, 4 * 2.0**30])
    return r.choice(["1 X", "G", "abc", "1 g", "12", "1 GB", "1 GiB", "", "1.2.3 G"])


def cores(r, frac):
    if frac and r.random() < 0.6:
        return r.choice([0.1, 0.2, 0.3, 0.5, 0.7, 1.1, 1.5, 2.5, 0.25, 3.3])
    return r.choice([1, 1, 2, 3, 4, 5, 8])


def draw(r, frac):
    """Values of some of the fields, close to each other's limits."""
    v = {}
    n = r.choice([0, 1, 2, 3, 7, 20, 1000])
    if r.random() < 0.7:
        v["worker_memory"] = memory(r)
    if r.random() < 0.7:
        v["scheduler_memory"] = memory(r)
    if r.random() < 0.7:
        v["worker_cores"] = cores(r, frac)
    if r.random() < 0.7:
        v["scheduler_cores"] = cores(r, frac)
    wm, sm = size(v.get("worker_memory", "2 G")), size(v.get("scheduler_memory", "2 G"))
    if r.random() < 0.65:
        near = None if INVALID in (wm, sm) else sm + n * wm
        v["cluster_max_memory"] = r.choice([memory(r, near), near if near is not None else "9G", None if r.random() < 0.3 else memory(r)])
    if r.random() < 0.65:
        near = v.get("scheduler_cores", 1) + n * v.get("worker_cores", 1)
        v["cluster_max_cores"] = r.choice([near, near, near + r.choice([0.5, -0.5, 1, -1, 1e-6, -1e-6]), r.choice([1, 2, 10, 0.5, None])])
        if v["cluster_max_cores"] is not None and v["cluster_max_cores"] < 0:
            v["cluster_max_cores"] = 0
    if r.random() < 0.5:
        v["cluster_max_workers"] = r.choice([None, 0, 1, 2, 5, n, n + 1, max(0, n - 1), 10**6])
    return v


def shuffled(r, d):
    ks = list(d)
    r.shuffle(ks)
    return {k: d[k] for k in ks}


DEFAULTS = dict(worker_memory="2 G", scheduler_memory="2 G", worker_cores=1, scheduler_cores=1, cluster_max_memory=None, cluster_max_cores=None, cluster_max_workers=None)


def expect(eff):
    """INVALID if it must be refused, else (effective sizes, worker limit, borderline)"""
    e = dict(eff)
    for k in ("worker_memory", "scheduler_memory", "cluster_max_memory"):
        if e[k] is not None or k != "cluster_max_memory":
            e[k] = size(e[k]) if e[k] is not None else INVALID
            if e[k] is INVALID:
                return INVALID, None, False
    lims, border = [], False
    if e["cluster_max_workers"] is not None:
        lims.append(e["cluster_max_workers"])
    if e["cluster_max_memory"] is not None:
        if e["scheduler_memory"] > e["cluster_max_memory"]:
            return INVALID, None, False
        lims.append((e["cluster_max_memory"] - e["scheduler_memory"]) // e["worker_memory"] if e["worker_memory"] else 10**18)
    if e["cluster_max_cores"] is not None:
        if e["scheduler_cores"] > e["cluster_max_cores"]:
            return INVALID, None, False
        q = (Fraction(e["cluster_max_cores"]) - Fraction(e["scheduler_cores"])) / Fraction(e["worker_cores"])
        near = round(q)
        if abs(q - near) < Fraction(1, 10**9) and q != near:
            border = True
        if any(isinstance(e[k], float) and not float(e[k]).is_integer() for k in ("cluster_max_cores", "scheduler_cores", "worker_cores")) and abs(q - near) < Fraction(1, 10**9):
            border = True
        lims.append(near if border else q.numerator // q.denominator)
    return e, (min(lims) if lims else None), border


def kinds():
    from dask_gateway_server.backends.base import ClusterConfig
    from dask_gateway_server.backends.db_base import DBBackendBase
    from dask_gateway_server.backends.jobqueue.pbs import PBSClusterConfig
    from dask_gateway_server.backends.jobqueue.slurm import SlurmClusterConfig
    from dask_gateway_server.backends.local import LocalClusterConfig

    out = [(ClusterConfig, False), (LocalClusterConfig, False), (PBSClusterConfig, False), (SlurmClusterConfig, False)]
    try:
        from dask_gateway_server.backends.kubernetes.backend import KubeClusterConfig

        out += [(KubeClusterConfig, True)] * 3
    except ImportError:
        pass
    return DBBackendBase, out


def case(ck, i):
    r = ck.rng("case", i)
    Backend, ks = kinds()
    for j in range(40):
        one(ck, r, Backend, *r.choice(ks))


def one(ck, r, Backend, cls, frac):
    from dask_gateway_server.models import User
    from dask_gateway_server.options import Options

    want = draw(r, frac)
    split = r.choice(["file", "options", "mixed", "mixed", "both"])
    base, sub, over = {}, {}, {}
    other = draw(r, frac)
    for k, v in want.items():
        place = {"file": r.choice(["base", "sub"]), "options": "over"}.get(split) or r.choice(["base", "sub", "over", "over"])
        {"base": base, "sub": sub, "over": over}[place][k] = v
        if split == "both" and k in other:
            # A value that another, stronger place overrides
            if place == "over" and r.random() < 0.7:
                r.choice([base, sub])[k] = other[k]
            elif place == "sub" and cls.__name__ != "ClusterConfig" and r.random() < 0.7:
                base[k] = other[k]
    if cls.__name__ == "ClusterConfig":
        base = {**base, **sub}
        sub = {}
    base, sub, over = shuffled(r, base), shuffled(r, sub), shuffled(r, over)
    eff = {**DEFAULTS, **base, **sub, **over}
    # A file value that is no size at all may be refused even if overridden
    hidden = [d[k] for d in (base, sub) for k in d if "memory" in k and d[k] is not None and size(d[k]) is INVALID]
    c = Config()
    c.Backend.cluster_config_class = cls
    for k, v in base.items():
        setattr(c.ClusterConfig, k, v)
    for k, v in sub.items():
        setattr(c[cls.__name__], k, v)
    label = f"{cls.__name__} file {base} {sub} options {over}"
    witness = dict(cls=cls.__name__, base=base, sub=sub, options=over)
    e, limit, border = expect(eff)
    c.Backend.cluster_options = Options(handler=lambda o: dict(over))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        backend = Backend(config=c)
        try:
            done, val = gwmod.sync(backend.process_cluster_options(User("alice"), {}))
            got, exc = val[1].to_dict(), None
        except Exception as x:
            got, exc = None, x
    ck.count("configurations")
    ck.count("split_" + split)
    if got is None:
        if type(exc).__name__ != "PublicException" and not (e is INVALID):
            raise core.Violation("crashed", f"{label}: {exc!r}", witness)
        if e is not INVALID and not hidden:
            raise core.Violation("valid-refused", f"{label}: refused, {exc}", witness)
        ck.count("refused")
        ck.case(("refused", label), True)
        return
    if e is INVALID:
        raise core.Violation("invalid-accepted", f"{label}: accepted as {({k: got[k] for k in DEFAULTS})}", witness)
    for k in DEFAULTS:
        if k != "cluster_max_workers" and got[k] != e[k]:
            raise core.Violation("effective-value", f"{label}: {k} is {got[k]}, must be {e[k]}", witness)
    n = got["cluster_max_workers"]
    tol = 1 if border else 0
    if (n is None) != (limit is None) or n is not None and not (limit - tol <= n <= limit + tol):
        raise core.Violation("worker-limit" if n is not None and limit is not None and n < limit else "limit-exceeded", f"{label}: the worker limit is {n}, must be {limit}", witness)
    if n is not None and e["cluster_max_workers"] is not None and n > e["cluster_max_workers"]:
        raise core.Violation("limit-exceeded", f"{label}: {n} workers, {e['cluster_max_workers']} configured", witness)
    ck.count("limited", n is not None)
    ck.count("limited_by_resources", n is not None and n != e["cluster_max_workers"])
    ck.count("borderline", border)
    ck.case(("ok", label), n is not None)


def body(ck):
    ck.pool(lambda i: case(ck, i), ck.budget(25, 600))
    ck.need(configurations=5000, refused=500, limited=2000, limited_by_resources=1000, split_mixed=500, split_both=500)


if __name__ == "__main__":
    core.main("C15", RULE, body, assumptions=["zero or negative sizes of a worker or scheduler are not judged", "with fractional cores one worker more or less is accepted where the quotient is within 1e-9 of a whole number"])
