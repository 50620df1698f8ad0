"""Takeoff and incident angles are those of the ray."""
import math

from .. import match, phases, work
from ..oracle import R2D
from . import c01

RULE = ("case = (Earth model, source depth, phase names, distances); Snell's "
        "law at both ends of every arrival of travel time, pierce point and "
        "path requests; distinct non-trivial = arrivals")
NEED = {"takeoff angles": 1500, "upgoing rays": 250,
        "sources on a discontinuity": 150, "models built": 5}
ASSUME = ["velocities are linear in depth between the rows of the model"]


def specs(ctx):
    return work.standard_specs(ctx, lvz=False, npert=ctx.pick(1, 4)) + \
        [s for s in work.lvz_specs() if s[0] == "lvzstep"]


def cases(ctx):
    out = c01.make_cases(ctx, ctx.pick(120, 1500), 14, 5, phases.CONVERTED)
    for k, c in enumerate(out):
        rng = ctx.rng("more", k)
        c["phases"] += rng.sample(phases.HEAD, 3)
        c["api"] = rng.choice(["times", "times", "pierce", "path"])
        if k % 6 == 5:
            c["model"] = "lvzstep"
    return out


TOL = 2e-6      # of the sine


def unit(case, W, R):
    model, z = case["model"], case["depth"]
    m, ref = W.model(model), W.ref(model)
    zs = match.effective_depth(W, model, z)
    get = {"times": m.get_travel_times, "pierce": m.get_pierce_points,
           "path": m.get_ray_paths}[case["api"]]
    ondisc = ref.is_discontinuity(zs)
    for deg in case["deg"]:
        for a in get(z, deg, case["phases"]):
            where = "%s, depth %r km, %r deg, %s" % (model, z, deg,
                                                     match.describe(a))
            up = a.name[0] in "ps"
            w = a.name[0].upper()
            sides = [not up] if zs == z else [True, False]
            want = []
            for below in sides:
                s = a.rayParam * ref.vel_at(w, zs, below) / (ref.R - zs)
                want.append((-1 if up else 1) * min(s, 1.))
            got = math.sin(math.radians(a.takeoffAngle))
            err = min(abs(got - s) for s in want)
            R.n("takeoff angles")
            R.seen(model, z, deg, a.name, round(a.time, 3))
            if up:
                R.n("upgoing rays")
            if ondisc:
                R.n("sources on a discontinuity")
            R.max("sine of the takeoff angle", err, where)
            if not err <= TOL or not abs(a.takeoffAngle) <= 90:
                R.bad("%s: takeoff angle %.6f instead of %.6f" % (
                    where, a.takeoffAngle,
                    math.degrees(math.asin(want[0]))))
                return
            last = [c for c in a.name if c in "PSps"][-1].upper()
            s = min(1., a.rayParam * ref.vel_at(last, 0., True) / ref.R)
            err = abs(math.sin(math.radians(a.incidentAngle)) - s)
            R.max("sine of the incident angle", err, where)
            if not err <= TOL or not 0 <= a.incidentAngle <= 90:
                R.bad("%s: incident angle %.6f instead of %.6f" % (
                    where, a.incidentAngle, math.degrees(math.asin(s))))
                return
            if case["api"] != "times":
                slopes(a, case["api"], ref, zs, R, where)


def slopes(a, api, ref, zs, R, where):
    """the first step of the path has that direction"""
    if api != "path" or any(h in a.name for h in ("diff", "n")):
        return
    pts = [q for q in a.getPath()]
    z0 = pts[0].depth
    q = next((q for q in pts[1:] if abs(q.depth - z0) > 1e-5), None)
    if q is None or abs(q.depth - z0) > 60 or not (
            1e-6 < abs(a.takeoffAngle) < 80):
        return
    down = q.depth > z0
    if down != (a.takeoffAngle >= 0):
        R.bad("%s: the path leaves %s, takeoff angle %.4f" % (
            where, "downward" if down else "upward", a.takeoffAngle))
        return
    R.n("directions of paths")
