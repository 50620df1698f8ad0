"""A built model file is the model, in every process."""
import hashlib
import json
import os
import pickle
import random
import shutil
import subprocess
import tempfile
import time

from .. import build, work
from . import c06, c14

RULE = ("case = models built in a new process (other hash seed, directory, "
        "order of models, verbosity, way of calling the builder) and compared "
        "bit by bit with those built before; or a model file loaded by name "
        "or path from several directories, in new processes; or a model file "
        "cut off at generated points, written to a full disk, or whose writer "
        "is killed, that is then loaded; distinct non-trivial = loads and "
        "builds compared")
NEED = {"models built again": 8, "loads compared": 60, "truncated files": 60,
        "failed writes": 6, "writers killed": 2, "models built": 3}
ASSUME = ["files are written by a single process at a time"]
NAMES = ["iasp91", "mini", "lvz"]


def specs(ctx):
    from .. import models as M
    return [("iasp91", ctx.sb.tvel_text("iasp91"), {}),
            ("mini", M.tvel(M.mini()), {}), ("lvz", M.tvel(M.lvz()), {})]


def cases(ctx):
    out = []
    for k in range(ctx.pick(36, 360)):
        rng = ctx.rng(k)
        kind = ["build", "load", "cut", "load", "full", "load"][k % 6]
        out.append({"kind": kind, "seed": rng.randrange(10 ** 9),
                    "model": rng.choice(NAMES)})
    return out


def picture(m):
    """everything in the model that answers depend on, bit by bit"""
    h = hashlib.sha1()

    def put(*x):
        h.update(repr(x).encode())
    a = c14.arrays(m)
    put([float(p).hex() for p in a["p"]], a["z"])
    for bb in a["v"]:
        for b in bb:
            for x in b:
                h.update(x.tobytes())
    for layers in (m.sMod.PLayers, m.sMod.SLayers):
        put([(float(x.topP).hex(), float(x.topDepth).hex(),
              float(x.botP).hex(), float(x.botDepth).hex()) for x in layers])
    put([(c.depth, c.pLayerNum, c.sLayerNum) for c in m.sMod.criticalDepths])
    put(m.radiusOfEarth, m.mohoBranch, m.cmbBranch, m.iocbBranch,
        float(m.mohoDepth), float(m.cmbDepth), float(m.iocbDepth))
    return h.hexdigest()


CHILD = r"""
import json, sys
sys.path.insert(0, sys.argv[1])
sys.path.insert(0, sys.argv[2])
from vt.checks import c15
job = json.load(sys.stdin)
out = getattr(c15, "child_" + job["do"])(job)
sys.stdout.write("\n@@" + json.dumps(out))
"""


def child(src, cwd, job, rng, **kw):
    env = build.child_env(src, PYTHONHASHSEED=str(rng.randrange(1, 99999)))
    pr = subprocess.run(
        [build.PY, "-W", "ignore", "-c", CHILD, src, build.VERIF],
        input=json.dumps(job), env=env, capture_output=True, text=True,
        cwd=cwd, **kw)
    if "\n@@" not in pr.stdout:
        return {"error": pr.stderr[-1200:] or "died: %s" % pr.returncode}
    return json.loads(pr.stdout.split("\n@@")[-1])


def answers(m, probes):
    return json.loads(json.dumps([c06.answer(m, q) for q in probes]))


def child_build(job):
    from taupy.TauP_Create import TauP_Create
    from taupy.tau import create_taup_model, TauPyModel
    out = []
    for b in job["builds"]:
        if b["how"] == "function":
            create_taup_model(b["name"], b["out"], b["in"])
            pic = None
        else:
            c = TauP_Create(b["in"], b["out"], verbose=b["verbose"])
            c.loadVMod()
            c.run()
            pic = picture(c.tMod)
        out.append([pic, picture(TauPyModel(b["file"]).model)])
    return out


def child_load(job):
    import os
    from taupy.tau import TauPyModel
    out = []
    for cwd, arg in job["loads"]:
        os.chdir(cwd)
        try:
            m = TauPyModel(arg) if arg is not None else TauPyModel()
            out.append([picture(m.model), answers(m, job["probes"])])
        except Exception as e:
            out.append(["%s: %s" % (type(e).__name__, e), None])
    return out


def child_full(job):
    """writes the model with limited file size"""
    import resource
    from taupy.TauP_Create import TauP_Create
    with open(job["path"], "rb") as f:
        model = pickle.load(f)
    c = TauP_Create(None, job["out"])
    c.createTauModel = lambda vMod: model
    c.vMod = None
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    raised = None
    try:
        resource.setrlimit(resource.RLIMIT_FSIZE, (job["limit"], hard))
        c.run()
    except Exception as e:
        raised = repr(e)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    first = child_load({"loads": [[".", job["out"]]], "probes": []})[0]
    c.run()
    second = child_load({"loads": [[".", job["out"]]], "probes": []})[0]
    return {"raised": raised, "first": first, "second": second}


def unit(case, W, R):
    d = tempfile.mkdtemp(prefix="c15-", dir=os.path.dirname(W.src))
    try:
        # a package of its own, whose internal models can be chosen
        src = os.path.join(d, "src")
        shutil.copytree(W.src, src)
        {"build": rebuild, "load": load, "cut": cut, "full": full}[
            case["kind"]](case, W, R, d, src)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pic(W, name):
    return W.memo(("c15", name), lambda: picture(W.model(name).model))


def rebuild(case, W, R, d, src):
    rng = random.Random(case["seed"])
    cwd = os.path.join(d, rng.choice(["work", "w.d"]))
    os.makedirs(cwd)
    builds, order = [], []
    for name in rng.sample(NAMES, 2):
        ind = os.path.join(d, "in%d" % len(builds))
        os.makedirs(ind)
        base = rng.choice([name, name, name + ".v2", "a.b." + name])
        with open(os.path.join(ind, base + ".tvel"), "w") as f:
            f.write(W.text(name))
        if rng.random() < 0.5:
            ind = os.path.relpath(ind, cwd)
        new = rng.choice(["", "new", "a/b.c/d", d + "/abs/x"])
        if rng.random() < 0.45:
            nm = rng.choice([base, base + ".tvel"]) if base == name else \
                base + ".tvel"
            builds.append({"how": "function", "name": nm, "out": new,
                           "in": ind, "file": os.path.join(
                               cwd, new, base + ".taup")})
        else:
            out = rng.choice(["m.taup", name, "iasp91.taup", "x y.pickle"])
            out = os.path.join(new, out)
            builds.append({"how": "class", "out": out, "verbose":
                           rng.random() < 0.3, "in": os.path.join(
                               ind, base + ".tvel"),
                           "file": os.path.join(cwd, out)})
            if rng.random() < 0.3:      # overwrite something longer
                os.makedirs(os.path.dirname(builds[-1]["file"]),
                            exist_ok=True)
                with open(builds[-1]["file"], "wb") as f:
                    f.write(b"x" * 9000000)
        order.append(name)
    got = child(src, cwd, {"do": "build", "builds": builds}, rng)
    where = "building %s in %s with %s" % (order, cwd, json.dumps(builds))
    if "error" in got:
        R.bad("%s: %s" % (where, got["error"]))
        return
    for name, b, (made, read) in zip(order, builds, got):
        R.n("models built again")
        R.seen(case["seed"], name)
        if made is not None and made != read:
            R.bad("%s: the model written to %s is read differently" % (
                where, b["file"]))
        if read != pic(W, name):
            R.bad("%s: %s is not the model built before from the same file"
                  % (where, name))


def expect(W, name, probes):
    return [pic(W, name), answers(W.model(name), probes)]


def load(case, W, R, d, src):
    rng = random.Random(case["seed"])
    name = case["model"]
    other = rng.choice([n for n in NAMES if n != name])
    probes = [c06.request(rng, name) for _ in range(2)]
    dirs = []
    for x in ("one", "two.d", "three/four"):
        dirs.append(os.path.join(d, x))
        os.makedirs(dirs[-1])
    loads, names = [], []

    def add(cwd, arg, model):
        loads.append([cwd, arg])
        names.append(model)
    # as files
    fn = rng.choice(["m.taup", "model", "iasp91.pickle", "my.model.v2.taup",
                     "iasp91", "a b.taup", "\u00e9t\u00e9.taup", "IASP91",
                     "Iasp91.taup", "iasp91.v2.taup", "VTModel", "vtmodel2",
                     "vtmodel.a.b.taup"])
    shutil.copy(W.path(name), os.path.join(dirs[0], fn))
    shutil.copy(W.path(other), os.path.join(dirs[2], fn))
    add(dirs[1], os.path.join(dirs[0], fn), name)
    add(dirs[1], os.path.join("..", "one", fn), name)
    add(dirs[0], os.path.join(".", fn), name)
    add(dirs[2], os.path.join(dirs[0], fn), name)
    add(d, os.path.join("three/four", fn), other)
    add(d, os.path.join("one", fn), name)
    # as internal models, one of them the default one
    mods = os.path.join(src, "taupy", "data", "models")
    tail = "__py"
    env = build.child_env(src)
    target = subprocess.run(
        [build.PY, "-c", "import sys; from taupy.utils import "
         "_get_model_filename as g; [print(g(x)) for x in sys.argv[1:]]",
         "iasp91", "vtmodel"], env=env, cwd=d, capture_output=True,
        text=True).stdout.split("\n")
    for t, m in zip(target[:2], (other, name)):
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copy(W.path(m), t)
    add(dirs[1], "vtmodel", name)
    add(dirs[1], "iasp91", other)
    add(dirs[2], None, other)
    add(dirs[0], "vtmodel", name)
    # with the same names as files in the current directory
    shutil.copy(W.path(other), os.path.join(dirs[1], "vtmodel"))
    add(dirs[1], "vtmodel", name)
    add(dirs[1], os.path.join(dirs[1], "vtmodel"), other)
    if os.path.splitext(fn)[0] not in ("iasp91", "vtmodel"):
        # not the name of an internal model: a file in this directory
        add(dirs[0], fn, name)
        add(dirs[2], fn, other)
    pairs = list(zip(loads, names))
    rng.shuffle(pairs)
    loads, names = zip(*pairs)
    got = child(src, d, {"do": "load", "loads": loads, "probes": probes},
                rng)
    if "error" in got:
        R.bad("loading %s: %s" % (loads, got["error"]))
        return
    want = {n: expect(W, n, probes) for n in (name, other)}
    for (cwd, arg), n, g in zip(loads, names, got):
        R.n("loads compared")
        R.seen(case["seed"], cwd, arg)
        if g[0] != want[n][0] or g[1] != want[n][1]:
            R.bad("TauPyModel(%r) in %s does not give model %s but %s "
                  "(internal models iasp91 = %s, vtmodel = %s)" % (
                      arg, cwd, n, "model " + [k for k in want if want[k][0]
                                               == g[0]][0] if
                      g[0] in [want[k][0] for k in want] else g[0], other,
                      name))
            return


def cut(case, W, R, d, src):
    """truncated files are refused"""
    rng = random.Random(case["seed"])
    name = case["model"]
    with open(W.path(name), "rb") as f:
        data = f.read()
    n = len(data)
    loads = []
    points = [0, 1, 2, n - 1, n - 2, n // 2] + [
        rng.randrange(n) for _ in range(10)] + [
        n - rng.randrange(2, 3000) for _ in range(4)]
    for i, k in enumerate(points):
        fn = os.path.join(d, "cut%d.taup" % i)
        with open(fn, "wb") as f:
            f.write(data[:k])
        loads.append([d, fn])
    with open(os.path.join(d, "text.taup"), "w") as f:
        f.write(W.text(name))
    loads.append([d, os.path.join(d, "text.taup")])
    loads.append([d, os.path.join(d, "missing.taup")])
    loads.append([d, W.path(name)])
    got = child(src, d, {"do": "load", "loads": loads, "probes": []}, rng)
    if "error" in got:
        R.bad("loading truncated files: %s" % got["error"])
        return
    for k, g in zip(points + ["text", "missing"], got):
        R.n("truncated files")
        R.seen(case["seed"], k)
        if g[1] is not None:
            R.bad("a file of model %s (%d bytes) cut off after %s bytes is "
                  "loaded as a model" % (name, n, k))
            return
    if got[-1] != [pic(W, name), []]:
        R.bad("model %s cannot be loaded after truncated files" % name)


def full(case, W, R, d, src):
    """a write that fails half way, a writer that is killed"""
    rng = random.Random(case["seed"])
    name = case["model"]
    n = os.path.getsize(W.path(name))
    for _ in range(3):
        limit = rng.choice([0, 1, rng.randrange(n), n - 1,
                            n - rng.randrange(1, 5000)])
        out = rng.choice(["full.taup", "sub/full.taup"])
        if rng.random() < 0.5:      # over a file that is there already
            os.makedirs(os.path.dirname(os.path.join(d, out)), exist_ok=True)
            shutil.copy(W.path("mini"), os.path.join(d, out))
        got = child(src, d, {"do": "full", "path": W.path(name), "out": out,
                             "limit": limit}, rng)
        where = "model %s (%d bytes) written to %s, with place for %d bytes" \
            % (name, n, out, limit)
        R.n("failed writes")
        R.seen(case["seed"], limit)
        if "error" in got:
            R.bad("%s: %s" % (where, got["error"]))
            return
        if got["first"][1] is not None and got["first"][0] not in (
                pic(W, name), pic(W, "mini")):
            R.bad("%s: what was written is loaded, as another model" % where)
            return
        if got["first"][1] is not None and got["first"][0] == pic(W, name) \
                and limit < n // 2:
            R.bad("%s: the model is loaded" % where)
            return
        if got["second"] != [pic(W, name), []]:
            R.bad("%s: writing it again gives %s" % (where,
                                                     got["second"][0]))
            return
    # killed at some point
    out = os.path.join(d, "killed.taup")
    env = build.child_env(src)
    pr = subprocess.Popen(
        [build.PY, "-W", "ignore", "-c",
         "import sys, pickle; sys.path.insert(0, sys.argv[1])\n"
         "m = pickle.load(open(sys.argv[2], 'rb'))\n"
         "print('ready', flush=True)\n"
         "while True: m.writeModel(sys.argv[3])", src, W.path(name), out],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
    pr.stdout.readline()
    time.sleep(rng.uniform(0.01, 0.6))
    died = pr.poll()
    pr.kill()
    err = pr.communicate()[1].decode()
    if died is not None:
        R.bad("writing model %s fails: %s" % (name, err[-600:]))
        return
    R.n("writers killed")
    if os.path.exists(out):
        got = child(src, d, {"do": "load", "loads": [[d, out]],
                             "probes": []}, rng)
        if "error" in got:
            R.bad("loading a file whose writer was killed: %s" % got["error"])
        elif got[0][1] is not None:
            R.n("complete files of killed writers")
            if got[0][0] != pic(W, name):
                R.bad("the file left by a killed writer of model %s is "
                      "loaded, as another model" % name)
        else:
            R.n("partial files of killed writers")
