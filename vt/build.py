"""
Scratch copy of the code under test and parallel building of tau models.

The code under test is always the working tree of /repo: its package is copied
to a scratch directory (without pickled models), the models are built there
with the package's own builder, and everything is removed at the end.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VT_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") \
    else sys.executable
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

WORKER = r"""
import json, sys, traceback
job = json.load(open(sys.argv[1]))
sys.path.insert(0, job["src"])
res = {"ok": False}
try:
    from taupy.TauP_Create import TauP_Create
    c = TauP_Create(input_filename=job["tvel"], output_filename=job["out"],
                    **job["params"])
    c.loadVMod()
    c.run()
    res["ok"] = True
except BaseException as e:
    res["error"] = "%s: %s" % (type(e).__name__, e)
    res["trace"] = traceback.format_exc()
json.dump(res, open(job["res"], "w"))
"""


def child_env(src, **extra):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        env.pop(k, None)
    env["PYTHONPATH"] = src
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONWARNINGS"] = "ignore"
    env.setdefault("PYTHONHASHSEED", "0")
    env["OMP_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env.update(extra)
    return env


class Built(object):
    """One model: how it was made and where it is."""
    def __init__(self, name, text, params, path, ok, error):
        self.name, self.text, self.params = name, text, params
        self.path, self.ok, self.error = path, ok, error


class Sandbox(object):
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vt-")
        self.src = os.path.join(self.dir, "src")
        os.makedirs(self.src)
        shutil.copytree(
            os.path.join(REPO, "taupy"), os.path.join(self.src, "taupy"),
            ignore=shutil.ignore_patterns("models", "tests", "__pycache__",
                                          "*.pyc"))
        self.models = os.path.join(self.dir, "models")
        os.makedirs(self.models)
        self.built = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def tvel_text(self, name):
        with open(os.path.join(self.src, "taupy", "data",
                               name + ".tvel")) as f:
            return f.read()

    def internal_path(self, name):
        """where a model with an internal name has to be"""
        env = child_env(self.src)
        out = subprocess.run(
            [PY, "-c", "import sys; from taupy.utils import "
             "_get_model_filename as g; print(g(sys.argv[1]))", name],
            env=env, cwd=self.dir, capture_output=True, text=True)
        if out.returncode:
            raise RuntimeError("cannot import taupy: " + out.stderr[-2000:])
        return out.stdout.strip()

    def build(self, specs, timeout=400, jobs=8):
        """
        specs: list of (name, tvel text, params dict).  Returns {name: Built}.
        """
        todo, running, out = list(specs), [], {}
        t0 = time.time()
        while todo or running:
            while todo and len(running) < jobs:
                name, text, params = todo.pop(0)
                d = os.path.join(self.models, name)
                os.makedirs(d)
                params = dict(params)
                base = params.pop("basename", name)
                tvel = os.path.join(d, base + ".tvel")
                with open(tvel, "w") as f:
                    f.write(text)
                job = {"src": self.src, "tvel": tvel, "params": params,
                       "out": os.path.join(d, base + ".pickle"),
                       "res": os.path.join(d, "res.json")}
                with open(os.path.join(d, "job.json"), "w") as f:
                    json.dump(job, f)
                log = open(os.path.join(d, "log"), "w")
                pr = subprocess.Popen(
                    [PY, "-W", "ignore", "-c", WORKER,
                     os.path.join(d, "job.json")],
                    env=child_env(self.src), cwd=d, stdout=log,
                    stderr=subprocess.STDOUT)
                running.append((pr, name, text, params, job))
            for r in list(running):
                pr, name, text, params, job = r
                if pr.poll() is None:
                    if time.time() - t0 > timeout:
                        pr.kill()
                        pr.wait()
                        running.remove(r)
                        out[name] = Built(name, text, params, None, False,
                                          "TIMEOUT")
                    continue
                running.remove(r)
                try:
                    res = json.load(open(job["res"]))
                except Exception:
                    res = {"ok": False,
                           "error": "builder died: %s" % pr.returncode}
                ok = res["ok"] and os.path.exists(job["out"])
                err = res.get("error") or (
                    None if ok else "no model file was written")
                out[name] = Built(name, text, params,
                                  job["out"] if ok else None, ok, err)
            time.sleep(0.02)
        self.built.update(out)
        return out
