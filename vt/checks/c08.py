"""Coordinates give the great circle distance."""
import math
import random

from .. import work
from ..oracle import R2D

RULE = ("case = pairs of points (random, poles, coinciding, antipodal, close, "
        "longitudes beyond 180 degrees); the distance of the returned "
        "arrivals is compared with a vector formula, and the arrivals with "
        "those of a request for that distance; distinct non-trivial = pairs")
NEED = {"pairs of points": 200, "arrivals compared": 500,
        "swapped": 80, "wrapped": 80, "models built": 2}
ASSUME = ["a sphere, geographic latitudes taken as geocentric"]
NAMES = ["mini", "iasp91"]


def specs(ctx):
    from .. import models as M
    return [("mini", M.tvel(M.mini()), {}),
            ("iasp91", ctx.sb.tvel_text("iasp91"), {})]


def point(rng):
    r = rng.random()
    if r < 0.1:
        return [rng.choice([90., -90.]), rng.choice([0., 77., -180.])]
    if r < 0.25:
        return [float(rng.randint(-90, 90)), float(rng.randint(-180, 180))]
    if r < 0.35:
        return [0., rng.choice([0., 180., -180., 90., 45.])]
    return [math.degrees(math.asin(rng.uniform(-1, 1))),
            rng.uniform(-180, 180)]


def cases(ctx):
    out = []
    for k in range(ctx.pick(130, 1800)):
        rng = ctx.rng(k)
        pairs = []
        for _ in range(6):
            a, r = point(rng), rng.random()
            if r < 0.1:
                b = list(a)
            elif r < 0.2:
                b = [-a[0], a[1] + rng.choice([180, -180])]
            elif r < 0.35:
                e = 10 ** rng.uniform(-7, 0)
                b = [min(90., max(-90., a[0] + rng.uniform(-e, e))),
                     a[1] + rng.uniform(-e, e)]
            elif r < 0.42:
                e = 10 ** rng.uniform(-6, 0)
                b = [min(90., max(-90., -a[0] + rng.uniform(-e, e))),
                     a[1] + 180 + rng.uniform(-e, e)]
            elif r < 0.5:
                b = [a[0], point(rng)[1]]
            else:
                b = point(rng)
            pairs.append([a, b])
        out.append({"model": NAMES[k % 2], "depth": rng.choice(
            [0., 10., work.depth(rng, 700.)]), "pairs": pairs,
            "seed": rng.randrange(10 ** 9)})
    return out


def vector(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def distance(p, q):
    u, v = vector(*p), vector(*q)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
         u[0] * v[1] - u[1] * v[0])
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in c)),
                                   sum(x * y for x, y in zip(u, v))))


PROBE = "4kmps"     # arrives at every distance, at a time linear in it


def folded(m, z, R, where, **kw):
    """the distance that a request is answered for"""
    aa = m.get_travel_times(z, phase_list=[PROBE], **kw)
    if not len(aa):
        R.bad("%s: no surface wave" % where)
        return None
    return min(a.dist for a in aa) * R2D


def unit(case, W, R):
    rng = random.Random(case["seed"])
    m, z = W.model(case["model"]), case["depth"]
    for p, q in case["pairs"]:
        R.n("pairs of points")
        R.seen(tuple(p), tuple(q))
        want = distance(p, q)
        where = "%s, depth %r km, from %r to %r (%.9f deg)" % (
            case["model"], z, p, q, want)
        # rounding of the cosine of the distance
        s = math.sin(math.radians(want))
        tol = min(2e-6, 1e-13 + 8e-14 / max(s, 1e-12))
        c = p + q
        if rng.random() < 0.2:
            c = tuple(c)
        got = folded(m, z, R, where, coordinate_list=c)
        if got is None:
            return
        R.max("distance (deg), not near 0 and 180", abs(got - want)
              if 1 < want < 179 else 0, where)
        R.max("distance (deg)", abs(got - want), where)
        if not abs(got - want) <= tol:
            R.bad("%s: answered for %.12f deg" % (where, got))
            return
        if rng.random() < 0.7:
            R.n("swapped")
            g = folded(m, z, R, where, coordinate_list=q + p)
            if not abs(g - got) <= 2 * tol:
                R.bad("%s: answered for %.12f deg, and for %.12f deg with "
                      "source and receiver swapped" % (where, got, g))
                return
        if rng.random() < 0.7:
            R.n("wrapped")
            k, l = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1),
                               (2, -1), (-1, 1)])
            c2 = [p[0], p[1] + 360 * k, q[0], q[1] + 360 * l]
            g = folded(m, z, R, where, coordinate_list=c2)
            # rounding of the longitudes, and of the cosine
            if not abs(g - want) <= min(4e-6, tol * 20 + 1e-12):
                R.bad("%s: answered for %.12f deg with coordinates %r" % (
                    where, g, c2))
                return
        if rng.random() < 0.5:
            arrivals(m, z, p, q, want, tol, R, where, rng)


def arrivals(m, z, p, q, want, tol, R, where, rng):
    """the same arrivals as for the distance"""
    names = ["P", "S", "PcP", "ScS", "PKIKP", "PP", "SKS", "3kmps", "pP"]
    f = rng.choice([m.get_travel_times, m.get_travel_times,
                    m.get_pierce_points])
    a = f(z, phase_list=names, coordinate_list=p + q)
    b = f(z, want, names)
    if len(a) != len(b):
        near = [len(f(z, want + d, names)) for d in (-3e-6, 3e-6)]
        if len(a) in near or want < 1e-5 or want > 180 - 1e-5:
            R.n("at the end of a branch")
            return
        R.bad("%s: %d arrivals, but %d for that distance" % (where, len(a),
                                                             len(b)))
        return
    key = (lambda x: (x.name, round(x.dist / math.pi - 0.5), x.time))
    for u, v in zip(sorted(a, key=key), sorted(b, key=key)):
        R.n("arrivals compared")
        if u.name != v.name or abs(u.time - v.time) > 1e-6 + tol * 40 or \
                abs(u.dist - v.dist) * R2D > tol * 2 + 1e-12 or \
                abs(u.rayParam - v.rayParam) > 1e-3 + tol * 1e4:
            R.bad("%s: %s at %.9f s, %.9f deg instead of %s at %.9f s, %.9f "
                  "deg" % (where, u.name, u.time, u.dist * R2D, v.name,
                           v.time, v.dist * R2D))
            return
