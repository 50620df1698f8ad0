"""A query's answer does not depend on anything done before."""
import hashlib
import io
import json
import os
import random
import subprocess
import sys
import threading
import contextlib

import numpy as np

from .. import build, phases, work
from . import c01

RULE = ("case = a history of requests (times, pierce points, paths, lazy "
        "pierce points and paths, printed tables, failing requests, reused "
        "request objects, direct depth corrections and splits) on one model, "
        "with probe requests in between that are compared bit by bit with a "
        "freshly loaded model; or such requests from several threads; or "
        "probes in new processes with other hash seeds, also for two "
        "models with the same name; distinct non-trivial "
        "= probes compared after at least one other operation")
NEED = {"operations": 150, "probes compared": 40, "thread requests": 40,
        "probes in other processes": 6,
        "probes on another model of the same name": 3, "failing requests": 10,
        "models built": 4}
ASSUME = ["CPython threads interleave at bytecode boundaries (switch interval "
          "of 1e-6 s)"]

NAMES = ["iasp91", "mini", "lvzstep"]


def specs(ctx):
    sb = ctx.sb
    from .. import models as M
    return [("iasp91", sb.tvel_text("iasp91"), {}),
            ("mini", M.tvel(M.mini()), {}),
            ("lvzstep", M.tvel(M.lvzstep()), {})] + [
                # another model with the same name
                ("twin-" + n, M.tvel([
                    (r[0],) + tuple(v * (1.01 if 700 < r[0] < 2800 else 1.)
                                    for v in r[1:3]) + (r[3],)
                    for r in rows]), {"basename": n})
                for n, rows in (("mini", M.mini()), ("lvzstep", M.lvzstep()))]


POOL = phases.COMMON + phases.MORE + phases.CONVERTED + phases.HEAD + \
    ["3kmps", "ttp", "tts+", "Px", "P^5000Q", "Pc", "xkmps"]


def request(rng, model=None):
    return {"model": model or rng.choice(NAMES),
            "kind": rng.choice(["times", "times", "pierce", "path"]),
            "depth": rng.choice([work.depth(rng), 0., 35., 10., 410.]),
            "deg": work.distance(rng),
            "phases": rng.sample(POOL, rng.randint(1, 6))}


def cases(ctx):
    out = []
    for k in range(ctx.pick(48, 700)):
        rng = ctx.rng(k)
        kind = "history" if k % 3 else "threads"
        if k % 12 == 5:
            kind = "process"
        out.append({"kind": kind, "model": NAMES[(k // 3) % 3],
                    "seed": rng.randrange(10 ** 9),
                    "n": rng.choice([6, 12, 24])})
    return out


def hx(x):
    return float(x).hex()


def points(pp):
    return [(hx(p.time), hx(p.distRadian), hx(p.depth), hx(p.p))
            for p in pp]


def answer(m, q):
    """bit exact picture of the answer"""
    f = {"times": m.get_travel_times, "pierce": m.get_pierce_points,
         "path": m.get_ray_paths}[q["kind"]]
    with contextlib.redirect_stdout(io.StringIO()):
        aa = f(q["depth"], q["deg"], q["phases"])
    out = []
    for a in aa:
        out.append([a.name, a.puristName, hx(a.time), hx(a.dist),
                    hx(a.rayParam), hx(a.takeoffAngle), hx(a.incidentAngle),
                    hx(a.sourceDepth)])
        if q["kind"] == "pierce":
            out[-1].append([list(x) for x in points(a.pierce)])
        if q["kind"] == "path":
            out[-1].append(hashlib.sha1(repr(points(a.path)).encode())
                           .hexdigest())
    return out


def state(x, seen, h):
    """structural digest of the model"""
    if isinstance(x, np.ndarray):
        h.update(str(x.dtype).encode() + str(x.shape).encode())
        if x.dtype == object:
            for y in x.ravel():
                state(y, seen, h)
        else:
            h.update(x.tobytes())
    elif isinstance(x, (int, float, str, bool, type(None), np.generic)):
        h.update(repr(x).encode())
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for y in x:
            state(y, seen, h)
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            state(x[k], seen, h)
    elif hasattr(x, "__dict__"):
        if id(x) in seen:
            return
        seen.add(id(x))
        h.update(type(x).__name__.encode())
        state(x.__dict__, seen, h)
    else:
        h.update(repr(type(x)).encode())


def digest(model):
    h = hashlib.sha1()
    state(model, set(), h)
    return h.hexdigest()


def operation(m, W, rng, R):
    """something that may be done with a model"""
    r = rng.random()
    q = request(rng)
    mm = m.model
    R.n("operations")
    with contextlib.redirect_stdout(io.StringIO()):
        if r < 0.35:
            answer(m, q)
            return "request " + q["kind"]
        if r < 0.5:
            aa = m.get_travel_times(q["depth"], q["deg"], q["phases"])
            for a in list(aa)[:4]:
                a.getPierce()
                a.getPath()
                a.getPierce()
            return "lazy points"
        if r < 0.58:
            f = rng.choice([m.get_travel_times, m.get_pierce_points,
                            m.get_ray_paths])
            f(q["depth"], q["deg"], q["phases"], print_output=True)
            return "printed table"
        if r < 0.73:
            R.n("failing requests")
            bad = rng.choice([
                lambda: m.get_travel_times(q["depth"]),
                lambda: m.get_travel_times(-5, 30),
                lambda: m.get_travel_times(7000., 30., ["P"]),
                lambda: m.get_pierce_points(1e9, 30., ["P"]),
                lambda: m.get_ray_paths(float("nan"), 30., ["P"]),
                lambda: m.get_travel_times("x", 30.),
                lambda: m.get_travel_times(10, None, ["P"],
                                           [1, 2, None, 3]),
                lambda: m.get_travel_times(10, float("inf"), ["P", "S"]),
                lambda: m.get_travel_times(10, 30, [None]),
                lambda: m.get_pierce_points(10, 30, ["P", 3])])
            try:
                bad()
            except Exception:
                pass
            return "failing request"
        if r < 0.83:
            from taupy.TauP_Pierce import TauP_Pierce
            pp = TauP_Pierce(mm, q["phases"], q["depth"], q["deg"])
            pp.addDepth = [round(rng.uniform(1, 2800), 1), 100., 2000.]
            pp.run()
            return "additional depths"
        if r < 0.91:
            try:
                n = mm.depthCorrect(q["depth"])
                n2 = n.splitBranch(round(rng.uniform(1, 6000), 1))
                mm.splitBranch(round(rng.uniform(1, 6000), 1))
                n2.splitBranch(rng.choice([100., 35., 410., 2000.]))
            except Exception:
                pass
            return "direct split"
        if r < 0.96:
            W.fresh(q["model"]).get_travel_times(q["depth"], q["deg"],
                                                 q["phases"])
            return "other model"
        from taupy.tau import TauPyModel
        try:
            TauPyModel("no-such-model")
        except Exception:
            pass
        from taupy.TauP_Time import TauP_Time
        for _ in range(3):
            t = TauP_Time(mm, q["phases"], q["depth"], q["deg"])
            t.run()
            t.run()
        return "reused request object"


def compare(R, got, want, what, q):
    R.n("probes compared")
    if got != want:
        d = [(a, b) for a, b in zip(got, want) if a != b][:1]
        R.bad("%s: %s answers differently: %d arrivals instead of %d, first "
              "difference %s" % (what, json.dumps(q), len(got), len(want),
                                 str(d)[:700]))
        return False
    return True


def unit(case, W, R):
    {"history": history, "threads": threads, "process": process}[
        case["kind"]](case, W, R)


def history(case, W, R):
    rng = random.Random(case["seed"])
    model = case["model"]
    m = W.fresh(model)
    probes = [request(rng, model) for _ in range(4)]
    probes[0]["kind"] = "path"
    # the answers of models on which nothing else was done
    want = [answer(W.fresh(model), q) for q in probes]
    R.n("arrivals in probes", sum(map(len, want)))
    d0 = digest(m.model)
    log = []
    for k in range(case["n"]):
        log.append(operation(m, W, rng, R))
        if k % 6 == 5 or k == case["n"] - 1:
            j = rng.randrange(len(probes))
            R.seen(case["seed"], k)
            if not compare(R, answer(m, probes[j]), want[j], "after %s on %s"
                           % (log, model), probes[j]):
                return
    if digest(m.model) != d0:
        # something in the shared model changed: look for what it does
        R.n("model changed by requests")
        for k in range(40):
            q = request(rng, model)
            if not compare(R, answer(m, q), answer(W.fresh(model), q),
                           "after %s on %s, which changed the model" % (
                               log, model), q):
                return
    # times, pierce points and paths of one request agree
    q = dict(probes[0])
    parts = []
    for kind in ("times", "pierce", "path"):
        parts.append([x[:8] for x in answer(m, dict(q, kind=kind))])
    if not (parts[0] == parts[1] == parts[2]):
        R.bad("times, pierce point and path requests give different arrivals "
              "for %s" % json.dumps(q))
    with contextlib.redirect_stdout(io.StringIO()):
        lazy = m.get_travel_times(q["depth"], q["deg"], q["phases"])
        both = m.get_ray_paths(q["depth"], q["deg"], q["phases"])
        pier = m.get_pierce_points(q["depth"], q["deg"], q["phases"])
        before = [hx(a.time) + hx(a.rayParam) + hx(a.dist) for a in lazy]
        for a, b, c in zip(lazy, both, pier):
            if points(a.getPath()) != points(b.path) or \
                    points(a.getPierce()) != points(c.pierce) or \
                    points(b.getPierce()) != points(c.getPierce()):
                R.bad("getPath()/getPierce() of a travel time arrival differ "
                      "from those of the path and pierce requests: %s" %
                      json.dumps(q))
                return
        if before != [hx(a.time) + hx(a.rayParam) + hx(a.dist)
                      for a in lazy]:
            R.bad("computing pierce points changed the arrivals: %s" %
                  json.dumps(q))
        # a request object that is used again for another source
        from taupy.TauP_Time import TauP_Time
        q1, q2 = request(rng, model), request(rng, model)
        for qq in (q1, q2):
            qq["kind"] = "times"
        if rng.random() < 0.7:
            # one that is only a little deeper or shallower
            q2["depth"] = max(0., round(q1["depth"] + rng.choice([-1, 1]) * 10
                                        ** rng.uniform(-4, 1.7), 6))
            q2["deg"] = rng.choice([q1["deg"], q2["deg"]])
        t = TauP_Time(m.model, q1["phases"], q1["depth"], q1["deg"])
        t.run()
        t.depth, t.degrees = q2["depth"], q2["deg"]
        t.run()
        got = [(a.name, hx(a.time), hx(a.dist)) for a in t.arrivals]
        w = [(a[0], a[2], a[3]) for a in answer(m, dict(
            q2, phases=q1["phases"]))]
        R.n("probes compared")
        if got != w:
            R.bad("a reused request object gives other arrivals: %s then %s" %
                  (json.dumps(q1), json.dumps(q2)))


def threads(case, W, R):
    rng = random.Random(case["seed"])
    model = case["model"]
    nthr = rng.choice([2, 4, 8])
    lists = [[request(rng, model) for _ in range(3)] for _ in range(nthr)]
    if rng.random() < 0.5:      # the same depth in all threads
        for ll in lists:
            for q in ll:
                q["depth"] = lists[0][0]["depth"]
    fresh = W.fresh(model)
    want = [[answer(fresh, q) for q in ll] for ll in lists]
    m = W.fresh(model)
    got = [[None] * len(ll) for ll in lists]
    errors = []
    gate = threading.Barrier(nthr)
    f = {"times": m.get_travel_times, "pierce": m.get_pierce_points,
         "path": m.get_ray_paths}

    def work_(i):
        try:
            gate.wait()
            for j, q in enumerate(lists[i]):
                got[i][j] = f[q["kind"]](q["depth"], q["deg"], q["phases"])
        except Exception as e:
            errors.append((i, repr(e)))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        tt = [threading.Thread(target=work_, args=(i,)) for i in range(nthr)]
        for t in tt:
            t.start()
        for t in tt:
            t.join()
    finally:
        sys.setswitchinterval(old)
    R.n("thread requests", sum(map(len, lists)))
    if errors:
        R.bad("%d threads on one model: %s" % (nthr, errors[:2]))
        return
    for i, ll in enumerate(lists):
        for j, q in enumerate(ll):
            R.seen(case["seed"], i, j)

            class Canned(object):
                def __init__(self, aa):
                    self.get_travel_times = self.get_pierce_points = \
                        self.get_ray_paths = lambda *x: aa
            if not compare(R, answer(Canned(got[i][j]), q), want[i][j],
                           "%d threads on %s" % (nthr, model), q):
                return


CHILD = r"""
import json, sys
sys.path.insert(0, sys.argv[1])
sys.path.insert(0, sys.argv[2])
from taupy.tau import TauPyModel
from vt.checks import c06
job = json.load(sys.stdin)
m = TauPyModel(job["path"])
out = [c06.answer(m, q) for q in job["probes"]]
sys.stdout.write("\n@@" + json.dumps(out))
"""


def process(case, W, R):
    rng = random.Random(case["seed"])
    model = case["model"]
    probes = [request(rng, model) for _ in range(6)]
    twin = "twin-" + model
    for name in (model, twin) if rng.random() < 0.5 else (twin, model):
        if name in W.info:
            one_process(name, probes, W, R, rng)


def one_process(model, probes, W, R, rng):
    m = W.model(model)
    here = [answer(m, q) for q in probes]
    env = build.child_env(W.src, PYTHONHASHSEED=str(rng.randrange(1, 9999)))
    pr = subprocess.run(
        [build.PY, "-W", "ignore", "-c", CHILD, W.src, build.VERIF],
        input=json.dumps({"path": W.path(model), "probes": probes}),
        env=env, capture_output=True, text=True, cwd=os.path.dirname(W.src))
    if "\n@@" not in pr.stdout:
        R.bad("a new process fails: " + pr.stderr[-800:])
        return
    there = json.loads(pr.stdout.split("\n@@")[1])
    for q, a, b in zip(probes, json.loads(json.dumps(here)), there):
        R.n("probes in other processes")
        if model.startswith("twin"):
            R.n("probes on another model of the same name")
        R.seen(model, json.dumps(q))
        if not compare(R, a, b, "this process after many requests and a new "
                       "process", q):
            return
