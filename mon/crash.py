"""Crash points: copies of database and world, and incarnations run from them."""
import os
import shutil
import tempfile

import sqlalchemy as sa
from sqlalchemy.engine import Engine

from mon import dbworld, gw as gwmod, vloop

_active = None  # the recorder of the incarnation being run
_listening = False
BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


def _listen():
    global _listening
    if _listening:
        return
    _listening = True

    @sa.event.listens_for(Engine, "connect")
    def fast(con, rec):
        try:
            con.execute("PRAGMA synchronous=OFF")
        except Exception:
            pass

    @sa.event.listens_for(Engine, "commit")
    def commit(con):
        if _active is not None:
            _active.point("commit")


class Snap:
    def __init__(self, t, world, files, what):
        self.t, self.world, self.files, self.what = t, world, files, what


class Recorder:
    """Takes snapshots at randomly spaced points of an incarnation."""

    def __init__(self, sim, path, rng, gap, limit, skip=0):
        self.sim, self.path, self.rng, self.gap, self.limit = sim, path, rng, gap, limit
        self.points = 0
        self.commits = 0
        self.snaps = []
        self.next = skip + 1 + int(rng.expovariate(1 / gap)) if gap else None
        self.ready = False

    def on_log(self, kind, d):
        if kind not in ("seen", "polled", "got", "check", "boot", "restored", "discovered"):
            self.point(kind)

    def point(self, what):
        if not self.ready:
            return
        self.points += 1
        self.commits += what == "commit"
        if self.next is None or self.points < self.next or len(self.snaps) >= self.limit:
            return
        self.next = self.points + 1 + int(self.rng.expovariate(1 / self.gap))
        self.take(what)

    def take(self, what):
        self.snaps.append(Snap(self.sim.loop.time(), self.sim.w.clone(), read(self.path), what))


def read(path):
    out = {}
    for suffix in ("", "-journal"):
        try:
            with open(path + suffix, "rb") as f:
                out[suffix] = f.read()
        except FileNotFoundError:
            pass
    return out


def life(world, files, start, main, rng=None, gap=None, limit=0, spin=1_000_000, recover=False, log_sink=None):
    """Run one incarnation from the given state; returns (world, files, recorder).

    With recover, crash points inside start-up count too.
    """
    global _active
    _listen()
    d = tempfile.mkdtemp(prefix="verif-", dir=BASE)
    path = os.path.join(d, "gw.db")
    out = {}
    try:
        for suffix, data in files.items():
            with open(path + suffix, "wb") as f:
                f.write(data)

        async def go(loop):
            global _active
            sim = dbworld.Sim(world, loop)
            rec = Recorder(sim, path, rng, gap, limit)
            out["rec"] = rec
            sim.on_log.append(rec.on_log)
            _active = rec
            rec.ready = recover
            await sim.boot("sqlite:///" + path, log_sink=log_sink)
            rec.ready = True
            if world.inc > 1:
                sim.discover()
                sim.restore()
            await main(sim)
            # The end of this life: whatever happens while the loop is torn down does not count
            rec.ready = False
            out["end"] = Snap(loop.time(), sim.w.clone(), read(path), "end")
            try:
                sim.gw.backend.db.db.dispose()
            except Exception:
                pass

        vloop.run(go, start=start, spin_limit=spin)
    finally:
        _active = None
        shutil.rmtree(d, ignore_errors=True)
    return out["end"], out["rec"]
