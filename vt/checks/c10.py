"""Ray paths are the ray."""
import math

from .. import match, phases, points
from ..oracle import R2D
from . import c01, c09

RULE = ("case = (Earth model, source depth, phase names, distances); every "
        "point of the path of every arrival is compared with the traced ray; "
        "distinct non-trivial = arrivals with a path")
NEED = {"path points compared": 30000, "arrivals with a path": 800,
        "pierce points found on the path": 3000, "models built": 4}
ASSUME = c01.ASSUME
specs = c01.specs


def cases(ctx):
    out = c01.make_cases(ctx, ctx.pick(110, 1200), 10, 3, phases.CONVERTED)
    for k, c in enumerate(out):
        rng = ctx.rng("more", k)
        c["phases"] += rng.sample(phases.HEAD, 3)
        if rng.random() < 0.3:
            c["phases"].append("%.2fkmps" % rng.uniform(1, 9))
        c["api"] = rng.choice(["list", "list", "lazy"])
    return out


STEP = 130.     # km, the greatest depth step of the default settings and some


def unit(case, W, R, tol=points.PATH, step=STEP):
    model, z = case["model"], case["depth"]
    m = W.model(model)
    zs = match.effective_depth(W, model, z)
    disc = [d for d, _, _ in W.ref(model).discontinuities()]
    for deg in case["deg"]:
        if case["api"] == "list":
            aa = m.get_ray_paths(z, deg, case["phases"])
        else:
            aa = m.get_travel_times(z, deg, case["phases"])
        for a in aa:
            where = "%s, depth %r km, %r deg, %s" % (model, z, deg,
                                                     match.describe(a))
            pts = list(a.getPath())
            if a.name.endswith("kmps"):
                c09.surface_wave(a, pts, z, R, where)
                continue
            rp, legs = points.ray_of(W, model, a.name, zs, a)
            if rp is None or legs is None:
                R.n("phase not modelled by the reference")
                continue
            scale = abs(legs[-1][5] - a.dist) * R2D
            if scale > tol.of(a.name).aX:
                R.n("arrival too far from its ray (see C01)")
                continue
            R.seen(model, z, deg, a.name, round(a.time, 3))
            R.n("arrivals with a path")
            # the path is that of the ray parameter: it does not share the
            # error of the arrival's distance
            if not points.check_points("path", pts, a, zs, rp, legs, R,
                                       tol.of(a.name), where):
                continue
            dense(rp, legs, pts, a, zs, disc, R, where, step)
            onpath(pts, list(a.getPierce()), a, R, where, scale, rp, legs)


def dense(rp, legs, pts, a, zs, disc, R, where, step):
    """no layer is skipped: depth steps are bounded, every discontinuity that
    the ray crosses is a point of the path, once per crossing"""
    big = 0.
    for u, v in zip(pts[:-1], pts[1:]):
        big = max(big, abs(u.depth - v.depth))
    R.max("depth step (km)", big, where)
    if big > step:
        R.bad("%s: path: a step of %.1f km in depth" % (where, big))
        return
    want = points.crossings(rp, a.rayParam, legs, set(disc))
    far = 0.5 * max(1., len(legs) / 12.)
    i = 0
    for d, x, t, kind, margin, leg in want:
        if kind == "turn":
            continue
        j = i
        while j < len(pts) and not (
                abs(pts[j].depth - d) <= 1e-5 and
                abs(pts[j].distRadian - x) * R2D <= far):
            j += 1
        if j < len(pts):
            i = j
            continue
        if margin < c09.NEAR or x * R2D < 1e-3 and abs(d - zs) < c09.NEAR:
            continue
        R.bad("%s: path: no point at the %s at %.3f km, %.3f deg" % (
            where, kind, d, x * R2D))
        return


def onpath(pts, pierce, a, R, where, scale, rp, legs):
    """pierce points are on the path"""
    i = 0
    tol = 0.3 * max(1., sum(c in "PSKIJ" for c in a.name) / 6.) + scale
    for k, q in enumerate(pierce):
        j = i
        while j < len(pts):
            u = pts[j]
            v = pts[min(j + 1, len(pts) - 1)]
            lo, hi = min(u.depth, v.depth), max(u.depth, v.depth)
            if lo - 3 <= q.depth <= hi + 3 and \
                    u.distRadian * R2D - tol <= q.distRadian * R2D <= \
                    v.distRadian * R2D + tol and u.time - 40 * tol <= q.time \
                    <= v.time + 40 * tol:
                break
            j += 1
        if j == len(pts):
            # close to a turning point the depth is interpolated
            if 0 < k < len(pierce) - 1 and pierce[k - 1].depth < q.depth > \
                    pierce[k + 1].depth:
                R.n("turning points not compared")
                continue
            # or the distance, between two rays
            p = a.rayParam
            if points.among(rp, p, legs, points.neighbours(
                    rp, p, a.dist, len(legs)), q, 0,
                    points.NORMAL.of(a.name), scale) is not None:
                R.n("pierce points between neighbouring rays")
                continue
            R.bad("%s: the pierce point at %.3f km, %.4f deg, %.2f s is not on "
                  "the path" % (where, q.depth, q.distRadian * R2D, q.time))
            return
        i = max(j - 1, 0)
        R.n("pierce points found on the path")
