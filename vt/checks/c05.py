"""Arrivals depend on the distance only modulo the sphere."""
import math

from .. import match, phases, work
from ..oracle import R2D
from . import c01

RULE = ("case = (Earth model, source depth, phase names, distances that are "
        "exact binary fractions, so that folding them is exact); requests for "
        "congruent distances compared bit by bit; also distances equal to "
        "those of slowness samples; distinct non-trivial = arrivals compared")
NEED = {"congruent requests": 900, "arrivals compared": 2000,
        "distances of samples": 300,
        "distances of samples beyond 180 deg": 150, "rays beyond 180 deg": 400,
        "models built": 4}
ASSUME = []
specs = c01.specs


def cases(ctx):
    out = c01.make_cases(ctx, ctx.pick(110, 1300), 14, 0, phases.CONVERTED)
    for k, c in enumerate(out):
        rng = ctx.rng("more", k)
        c["phases"] += rng.sample(phases.HEAD, 2) + ["3.5kmps"]
        c["deg"] = [rng.choice([0., 180., 90.])] if rng.random() < .5 else []
        while len(c["deg"]) < 3:
            c["deg"].append(rng.choice([
                rng.randint(0, 180 * 64) / 64.,
                rng.randint(0, 180 * 64) / 64.,
                rng.randint(0, 64) / 256., 180 - rng.randint(0, 64) / 256.]))
        c["seed"] = rng.randrange(10 ** 9)
    return out


def sig(a):
    return (a.name, a.time, a.dist, a.rayParam, a.rayParamIndex,
            a.takeoffAngle, a.incidentAngle, a.puristName, a.sourceDepth)


def unit(case, W, R):
    import random
    rng = random.Random(case["seed"])
    model, z = case["model"], case["depth"]
    m = W.model(model)
    for d in case["deg"]:
        base = m.get_travel_times(z, d, case["phases"])
        want = sorted(sig(a) for a in base)
        where = "%s, depth %r km, phases %s" % (model, z, case["phases"])
        variants = [-d, 360. - d, d + 360., d - 360., 720. - d,
                    d + 360. * rng.randint(2, 50),
                    -d - 360. * rng.randint(1, 10 ** 6)]
        if d == int(d):
            variants.append(int(d))
        variants = rng.sample(variants, 3)
        for v in variants:
            got = sorted(sig(a) for a in m.get_travel_times(
                z, v, case["phases"]))
            R.n("congruent requests")
            if got != want:
                diff = [s[:4] for s in set(got) ^ set(want)][:4]
                R.bad("%s: %r deg and %r deg give different arrivals: %s" % (
                    where, d, v, diff))
                return
        times = [a.time for a in base]
        if times != sorted(times):
            R.bad("%s: %r deg: not sorted by time" % (where, d))
        by = {}
        for a in base:
            R.n("arrivals compared")
            R.seen(model, z, d, a.name, round(a.time, 3))
            x = a.dist * R2D
            if a.dist > math.pi:
                R.n("rays beyond 180 deg")
            err = abs((x - d + 180) % 360 - 180)
            err = min(err, abs((x + d + 180) % 360 - 180))
            if not err < 1e-9 * max(1., x) or a.dist < 0:
                R.bad("%s: %r deg: %s travels %.9f deg" % (
                    where, d, match.describe(a), x))
                return
            if abs(a.getModuloDistDeg() - d) > 1e-9 * max(1, x):
                R.bad("%s: %r deg: getModuloDistDeg() = %.12f" % (
                    where, d, a.getModuloDistDeg()))
                return
            if abs(a.getDistDeg() - x) > 1e-9 * max(1, x) or \
                    abs(a.purist_distance - x) > 1e-9 * max(1, x) or \
                    abs(a.rayParam_sec_degree - a.rayParam / R2D) > 1e-9 * \
                    max(1, a.rayParam):
                R.bad("%s: %r deg: derived values of %s differ" % (
                    where, d, match.describe(a)))
                return
            by.setdefault((a.name, round(a.dist, 9)), []).append(a)
        for (name, _), aa in by.items():
            aa.sort(key=lambda a: a.rayParam)
            for u, v in zip(aa[:-1], aa[1:]):
                if abs(u.rayParam - v.rayParam) < 1e-7 and \
                        abs(u.time - v.time) < 1e-7:
                    R.bad("%s: %r deg: %s is reported twice" % (
                        where, d, match.describe(u)))
                    return
        samples(m, model, z, base, rng, R)


def exact(x):
    """a distance in degrees for which the ray travels exactly x radians"""
    n = int(x // (2 * math.pi))
    for long in (False, True):
        r = 2 * (n + 1) * math.pi - x if long else x - 2 * n * math.pi
        if not 0 < r < math.pi:
            continue
        for r in (r, math.nextafter(r, 0), math.nextafter(r, 999)):
            if (2 * (n + 1) * math.pi - r if long else
                    2 * n * math.pi + r) != x:
                continue
            d = r * 180. / math.pi
            for k in (d, math.nextafter(d, 0), math.nextafter(d, 999)):
                if k * math.pi / 180 == r:
                    return k


def samples(m, model, z, base, rng, R):
    """distances that are those of a sample of the travel time curve"""
    far = [a for a in base if a.dist > math.pi]
    for a in rng.sample(list(base), min(3, len(base))) + rng.sample(
            far, min(3, len(far))):
        X, p = list(a.phase.dist), list(a.phase.rayParams)
        if len(X) < 4:
            continue
        for i in rng.sample(range(1, len(X) - 1), min(3, len(X) - 2)):
            x = float(X[i])
            d = exact(x)
            if d is None:
                continue
            if not (X[i - 1] < x < X[i + 1] or X[i - 1] > x > X[i + 1]) or \
                    p[i] == p[i + 1] or p[i] == p[i - 1]:
                continue
            R.n("distances of samples" if x < math.pi else
                "distances of samples beyond 180 deg")
            # the ray at that sample, once
            aa = [b for b in m.get_travel_times(z, d, [a.name])
                  if abs(b.dist - x) < 1e-12 and abs(b.rayParam - p[i]) < 1e-3]
            if len(aa) != 1:
                R.bad("%s, depth %r km, %r deg: %d arrivals of %s with "
                      "p=%.6f s/rad, which is a sample of its travel time "
                      "curve" % (model, z, d, len(aa), a.name, p[i]))
                return
