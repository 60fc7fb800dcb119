"""The Helm chart, rendered by Go's template engine (mon/helm/render.go)."""
import copy
import json
import os
import shutil
import subprocess
import tempfile

import yaml

from mon import core

HERE = os.path.dirname(os.path.abspath(__file__))


def merged(base, over):
    """The values Helm would use: maps are merged, a null removes."""
    out = copy.deepcopy(base)
    for k, v in over.items():
        if v is None:
            out.pop(k, None)
        elif isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = merged(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


class Chart:
    def __init__(self):
        self.dir = os.path.join(core.REPO, "resources", "helm", "dask-gateway")
        self.tmp = tempfile.mkdtemp(prefix="verif-chart-")
        env = dict(os.environ, GOCACHE=os.path.join(self.tmp, "cache"), GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GO111MODULE="off", GOPATH=os.path.join(self.tmp, "gopath"))
        self.exe = os.path.join(self.tmp, "render")
        p = subprocess.run(["go", "build", "-o", self.exe, os.path.join(HERE, "helm", "render.go")], env=env, cwd=self.tmp, capture_output=True, text=True, timeout=300)
        if p.returncode:
            self.close()
            raise core.Inconclusive(f"the renderer was not built: {p.stderr[-500:]}")
        shutil.rmtree(os.path.join(self.tmp, "cache"), ignore_errors=True)
        self.values = self.read("values.yaml")
        self.schema = self.read("values.schema.yaml")
        self.meta = self.read("Chart.yaml")
        self.extensions = {}
        ext = os.path.join(self.dir, "extensions")
        for root, _, names in os.walk(ext):
            for n in names:
                if n != ".gitkeep" and not n.endswith(".rst"):
                    with open(os.path.join(root, n)) as f:
                        self.extensions[os.path.relpath(os.path.join(root, n), self.dir)] = f.read()

    def read(self, name):
        with open(os.path.join(self.dir, name)) as f:
            return yaml.safe_load(f)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def render(self, cases):
        """[{values (what a user gives), release, namespace}] -> [(objects, texts) or an error text]"""
        jobs = [{"values": merged(self.values, c["values"]), "release": c["release"], "namespace": c["namespace"], "files": dict(self.extensions, **c.get("files", {}))} for c in cases]
        p = subprocess.run([self.exe], input=json.dumps({"chart": self.dir, "meta": self.meta, "cases": jobs}), capture_output=True, text=True, timeout=120)
        if p.returncode:
            raise core.Inconclusive(f"the renderer failed: {p.stderr[-500:]}")
        out = []
        for line in p.stdout.splitlines():
            res = json.loads(line)
            out.append(res["error"] if "error" in res else res["out"])
        return out


def objects(texts):
    """The Kubernetes objects of rendered templates."""
    objs = []
    for name, text in sorted(texts.items()):
        if name.endswith(".txt"):
            continue
        for o in yaml.safe_load_all(text):
            if o:
                objs.append(o)
    return objs
