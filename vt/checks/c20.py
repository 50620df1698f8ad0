"""Bad requests fail cleanly and leave the model usable."""
import contextlib
import io
import json
import math
import os
import random
import signal
import time

from .. import phases, work
from . import c06

RULE = ("case = a history of requests that cannot be answered (depths, "
        "distances, coordinates, model names, other types) or have arbitrary "
        "strings as phase names, mixed with valid ones, on one model; each "
        "has to end with an error or with finite numbers, and with no "
        "arrivals if it cannot be answered; valid phase names in the same "
        "list have to be answered, and probes in between bit by bit as by a "
        "fresh model; distinct non-trivial = bad requests judged")
NEED = {"bad depths": 40, "bad distances": 35, "bad coordinates": 30,
        "strange phase names": 600, "bad models": 25, "errors": 120,
        "probes compared": 60, "models built": 3}
ASSUME = ["30 s of CPU time are enough for any request"]
NAMES = c06.NAMES
specs = c06.specs
LIMIT = 30.


def cases(ctx):
    out = []
    for k in range(ctx.pick(64, 1500)):
        rng = ctx.rng(k)
        out.append({"model": NAMES[k % 3], "seed": rng.randrange(10 ** 9),
                    "n": 16})
    return out


LEGS = ("P S p s K I J c i m n g d diff ^410 v660 ^m vm ^ v 410 660 20 35.0 "
        "2889 5153.9 6371 0 99999 kmps 3 . , - + * ( ) _ ^mP vmS cP KIK Pn Sn "
        "Pdiff Sdiff PKP SKS PcP ed Pb Sb x X \u00e9 \u0394 Pg Sg iK Pv4 "
        "^2889 v2889 vi ^i ^c vc END").split() + [" ", "\t", "\n", "\0"]


def name(rng):
    r = rng.random()
    if r < 0.15:
        return "".join(chr(rng.choice([rng.randrange(1, 128),
                                       rng.randrange(128, 3000)]))
                       for _ in range(rng.randint(0, 8)))
    if r < 0.4:
        return "".join(rng.choice(LEGS) for _ in range(rng.randint(1, 5)))
    if r < 0.65:
        n = list(phases.random_name(rng, named=0.4))
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(len(n) + 1)
            if rng.random() < 0.5 and i < len(n):
                n[i] = rng.choice(LEGS)
            elif rng.random() < 0.5 and i < len(n):
                del n[i]
            else:
                n.insert(i, rng.choice(LEGS))
        return "".join(n)
    if r < 0.8:
        return "".join(rng.choice("PSKIJcivpsm^410nd") for _ in range(
            rng.randint(1, 12)))
    if r < 0.88:
        return "%skmps" % rng.choice(["", "-3", "0", "nan", "inf", "-inf",
                                      "1e400", "1e-400", "3x", "0.0", "-0",
                                      "1_0", " 3", "P"])
    if r < 0.94:
        return rng.choice("PSK") * rng.randint(15, 45)
    return rng.choice(["", " ", "P ", " P", "tt", "ttall+", "TTALL ", "None",
                       "P\n", "p" * 30, "K" * 20, "P^1e5P", "P^-10P",
                       "P^9999999999P", "P^" + "9" * 400 + "P", "P410",
                       "Pdiffdiff", "PnSnPn", "PKPdiff", "cP", "iK", "Pii"])


def finite(R, where, aa, allow=True):
    """no made-up numbers"""
    for a in aa:
        R.n("arrivals of bad requests")
        vals = {"time": a.time, "dist": a.dist, "rayParam": a.rayParam,
                "takeoffAngle": a.takeoffAngle,
                "incidentAngle": a.incidentAngle}
        for k, v in vals.items():
            if not (isinstance(v, (int, float)) or hasattr(v, "dtype")) or \
                    not math.isfinite(v) or k in ("time", "dist",
                                                  "rayParam") and v < 0:
                R.bad("%s: %s has %s = %r" % (where, a.name, k, v))
                return False
        for q in list(a.pierce) + list(a.path):
            if not all(math.isfinite(x) for x in (q.time, q.distRadian,
                                                  q.depth)) or \
                    q.time < -1e-6:
                R.bad("%s: a point of %s is %r, %r, %r" % (
                    where, a.name, q.time, q.distRadian, q.depth))
                return False
    if aa and not allow:
        R.bad("%s: arrivals are returned: %s" % (
            where, [(a.name, a.time, a.dist) for a in aa][:3]))
        return False
    return True


CRASH = (MemoryError, RecursionError, UnboundLocalError, NameError)


def ask(R, where, f, *a, **kw):
    """(arrivals or None, exception or None)"""
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    t0 = time.process_time()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **kw), None
    except Exception as e:
        R.n("errors")
        if isinstance(e, CRASH):
            R.bad("%s: %s: %s" % (where, type(e).__name__, e))
        return None, e
    finally:
        R.max("CPU time of a request (s)", time.process_time() - t0, where)


INF, NAN = float("inf"), float("nan")


def unit(case, W, R):
    rng = random.Random(case["seed"])
    m = W.fresh(case["model"])
    rad = m.model.radiusOfEarth
    probe = c06.request(rng, case["model"])
    want = W.memo(("c20", json.dumps(probe)),
                  lambda: c06.answer(W.fresh(case["model"]), probe))
    log = []
    for k in range(case["n"]):
        f = rng.choice([m.get_travel_times, m.get_travel_times,
                        m.get_pierce_points, m.get_ray_paths])
        good = rng.sample(phases.COMMON, 3)
        z, deg = work.depth(rng), work.distance(rng)
        kind = rng.choice(["depth", "distance", "coordinates", "phases",
                           "phases", "phases", "model", "types", "mixed"])
        where = "%s, request %d" % (case["model"], k)
        if kind == "depth":
            R.n("bad depths")
            bad = rng.choice([-1., -1e-9, -rng.uniform(0, 1e4), rad + 1e-6,
                              rad + 1, 1e9, 1e300, INF, -INF, NAN, -1e300,
                              rad * 2])
            where += ": depth %r, %r deg, %s" % (bad, deg, good)
            aa, e = ask(R, where, f, bad, deg, good)
            # so close to the surface that the source is put onto it
            if aa is not None and not finite(R, where, aa,
                                             abs(bad) < 1e-6):
                return
        elif kind == "distance":
            R.n("bad distances")
            bad = rng.choice([INF, -INF, NAN, None, 1e300, -1e300, 1e17,
                              -1e12, 1e6 + 0.5])
            where += ": depth %r, %r deg, %s" % (z, bad, good)
            aa, e = ask(R, where, f, z, bad, good)
            if aa is not None and not finite(
                    R, where, aa, bad is not None and math.isfinite(bad)):
                return
        elif kind == "coordinates":
            R.n("bad coordinates")
            c = [rng.uniform(-90, 90), rng.uniform(-180, 180),
                 rng.uniform(-90, 90), rng.uniform(-180, 180)]
            ok = True
            for _ in range(rng.randint(1, 2)):
                i = rng.randrange(4)
                c[i] = rng.choice([None, NAN, INF, -INF, "x", None])
                ok = False
            if rng.random() < 0.15:
                c = c[:rng.randrange(4)]
            where += ": depth %r, coordinates %r, %s" % (z, c, good)
            aa, e = ask(R, where, f, z, None, good, c)
            if aa is not None and not finite(R, where, aa, ok):
                return
        elif kind in ("phases", "mixed"):
            bad = [name(rng) for _ in range(6)]
            R.n("strange phase names", len(bad))
            if kind == "mixed":
                z = rng.choice([z, 3000., 5153.9, 6000., rad, rad - 1e-3, 0])
            where += ": depth %r, %r deg, phases %r" % (z, deg, bad)
            ph = bad + good
            rng.shuffle(ph)
            aa, e = ask(R, where, f, z, deg, ph)
            core = kind == "mixed" and z > 2889
            if e is not None and not core:
                R.bad("%s, along with %s: %s: %s" % (
                    where, good, type(e).__name__, e))
                return
            if aa is not None:
                if not finite(R, where, aa):
                    return
                bb, e2 = ask(R, where, f, z, deg, [n for n in ph
                                                   if n in good])
                if bb is not None:
                    u = [(a.name, a.time, a.rayParam) for a in aa
                         if a.name in good]
                    v = [(a.name, a.time, a.rayParam) for a in bb]
                    over = set(sum([phases.KEYWORDS.get(n.lower(), [n])
                                    for n in bad], []))
                    if not over & set(good) and u != v:
                        R.bad("%s, along with %s: the arrivals of the latter "
                              "are %s instead of %s" % (where, good, u[:4],
                                                        v[:4]))
                        return
        elif kind == "model":
            R.n("bad models")
            from taupy.tau import TauPyModel
            bad = rng.choice(["no-such-model", "", ".", "/", "no/such/file",
                              "iasp92", os.path.dirname(W.path("mini")),
                              "x" * 5000, "a\0b",
                              os.path.join(os.path.dirname(W.path("mini")),
                                           "mini.tvel"), None, 5])
            where += ": model %r" % (bad if isinstance(bad, int) or
                                     bad is None else bad[:80])
            mm, e = ask(R, where, TauPyModel, bad)
            if e is None:
                R.bad("%s: a model is returned" % where)
                return
        else:
            R.n("bad types")
            bad = rng.choice([
                ("depth", ("x", deg, good)), ("depth", (None, deg, good)),
                ("depth", ([1], deg, good)), ("degrees", (z, "x", good)),
                ("degrees", (z, [1, 2], good)), ("degrees", (z, 1j, good)),
                ("phases", (z, deg, [None])), ("phases", (z, deg, [3, "P"])),
                ("phases", (z, deg, 5)), ("phases", (z, deg, [["P"]])),
                ("phases", (z, deg, [b"P"])),
                ("coordinates", (z, None, good, 7)),
                ("coordinates", (z, None, good, [1, 2, 3])),
                ("coordinates", (z, None, good, "abcd"))])
            where += ": strange %s: %r" % bad
            aa, e = ask(R, where, f, *bad[1])
            if aa is not None and not finite(R, where, aa):
                return
        R.seen(case["seed"], where)
        log.append(where)
        if R.violations:
            return
        if k % 5 == 4 or k == case["n"] - 1:
            R.n("probes compared")
            signal.setitimer(signal.ITIMER_PROF, 120.)
            got = c06.answer(m, probe)
            if got != want:
                R.bad("%s: after %s, %s is answered differently: %d arrivals "
                      "instead of %d, first difference %s" % (
                          case["model"], log, json.dumps(probe), len(got),
                          len(want), str([(x, y) for x, y in zip(got, want)
                                          if x != y][:1])[:500]))
                return
