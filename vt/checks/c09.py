"""Pierce points lie on the ray, in order, from source to receiver."""
from .. import match, phases, points, work
from ..oracle import R2D
from . import c01

RULE = ("case = (Earth model, source depth, phase names, distances, "
        "additional depths); every pierce point of every arrival is compared "
        "with the traced ray and every crossing of the traced ray with a "
        "discontinuity, the source depth or an additional depth has to be a "
        "pierce point; distinct non-trivial = arrivals with pierce points")
NEED = {"pierce points compared": 5000, "crossings found": 4000,
        "additional depths crossed": 100, "models built": 4}
ASSUME = c01.ASSUME
specs = c01.specs


def cases(ctx):
    out = c01.make_cases(ctx, ctx.pick(140, 1500), 10, 4, phases.CONVERTED)
    for k, c in enumerate(out):
        rng = ctx.rng("more", k)
        c["phases"] += rng.sample(phases.HEAD, 3)
        if rng.random() < 0.3:
            c["phases"].append("%.2fkmps" % rng.uniform(1, 9))
        c["add"] = []
        if rng.random() < 0.25:
            # right above or below a discontinuity
            c["near"] = [rng.randrange(100), rng.choice([-1, 1]) * round(
                10 ** rng.uniform(-2.6, 0), 4)]
        c["api"] = rng.choice(["list", "list", "lazy", "add"])
        if c["api"] == "add":
            for _ in range(rng.randint(1, 3)):
                c["add"].append(rng.choice([
                    round(rng.uniform(1, 2800), 2), 100., 500., 1000., 2000.,
                    round(rng.uniform(2900, 6300), 1)]))
            if rng.random() < 0.3:
                c["add"] += [round(d + 10 ** rng.uniform(-2.6, 0), 4)
                             for d in c["add"]]
            elif rng.random() < 0.4:
                # integers are depths, too
                c["add"] = [int(d) for d in c["add"]] + [
                    rng.randint(30, 1500) for _ in range(3)]
                if rng.random() < 0.5:
                    c["depth"] = int(c["depth"])
    return out


def get(W, case, deg):
    m = W.model(case["model"])
    z, ph = case["depth"], case["phases"]
    if case["api"] == "list":
        return m.get_pierce_points(z, deg, ph)
    if case["api"] == "lazy":
        aa = m.get_travel_times(z, deg, ph)
        for a in aa:
            if a.getPierce() is not a.pierce:
                pass
        return aa
    from taupy.TauP_Pierce import TauP_Pierce
    pp = TauP_Pierce(m.model, ph, z, deg)
    pp.addDepth = list(case["add"])
    pp.run()
    return pp.arrivals


def unit(case, W, R, tol=points.NORMAL, strict=True):
    model, z = case["model"], case["depth"]
    ref = W.ref(model)
    disc = [d for d, _, _ in ref.discontinuities()]
    if "near" in case:
        up = [d for d in disc if 5 < d < 2800]
        z = case["depth"] = up[case["near"][0] % len(up)] + case["near"][1]
    zs = match.effective_depth(W, model, z)
    for deg in case["deg"]:
        for a in get(W, case, deg):
            where = "%s, depth %r km, %r deg, %s" % (model, z, deg,
                                                     match.describe(a))
            pts = list(a.getPierce())
            if a.name.endswith("kmps"):
                surface_wave(a, pts, z, R, where)
                continue
            rp, legs = points.ray_of(W, model, a.name, zs, a)
            if rp is None:
                R.n("phase not modelled by the reference")
                continue
            if legs is None:
                R.n("no such ray (see C01)")
                continue
            R.seen(model, z, deg, a.name, round(a.time, 3))
            # how far off the end of the traced ray is
            scale = abs(legs[-1][5] - a.dist) * R2D
            if scale > tol.of(a.name).aX:
                R.n("arrival too far from its ray (see C01)")
                continue
            if not points.check_points("pierce", pts, a, zs, rp, legs, R,
                                       tol.of(a.name),
                                       where, scale):
                continue
            complete(rp, legs, pts, a, zs, disc + [zs] + case["add"], R,
                     where, strict, case["add"], scale)


def surface_wave(a, pts, z, R, where):
    q, e = pts[0], pts[-1]
    if len(pts) < 2 or q.distRadian != 0 or q.time != 0 or \
            abs(e.distRadian - a.dist) > 1e-9 or abs(e.time - a.time) > 1e-6 \
            or abs(e.depth) > 1e-6:
        R.bad("%s: pierce points of the surface wave: %s" % (where, [
            (p.depth, p.distRadian * R2D, p.time) for p in pts]))
    R.n("surface waves")


TINY = 1e-3     # km: legs without a length
NEAR = 20.      # km: a ray may turn just above or just below that depth


class Depth(object):
    distRadian = 0.

    def __init__(self, depth):
        self.depth = depth


def complete(rp, legs, pts, a, zs, depths, R, where, strict, added, scale):
    want = points.crossings(rp, a.rayParam, legs, set(depths))
    # in the order of the legs
    i, rays = 0, None
    for d, x, t, kind, margin, leg in want:
        if kind == "turn":
            near = NEAR
        else:
            near = 1e-5
        j = i
        while j < len(pts) and not (
                abs(pts[j].depth - d) <= near and
                abs(pts[j].distRadian - x) * R2D <= 0.5 + scale):
            j += 1
        if j < len(pts):
            i = j
            R.n("crossings found")
            if d in added and kind == "crossing":
                R.n("additional depths crossed")
            continue
        if margin < NEAR or x * R2D > a.dist * R2D + 1:
            R.n("crossings close to the turning point")
            continue
        # a leg of no length at all has no point of its own
        if any(abs(q.depth - d) <= near and abs(q.distRadian - x) * R2D <=
               0.5 + scale for q in pts):
            R.n("crossings found")
            continue
        if x * R2D < 1e-3 and abs(d - zs) < TINY or kind == "turn" and any(
                abs(q.depth - d) < 60 and abs(q.distRadian - x) * R2D < 0.5 +
                scale for q in pts):
            continue
        if rays is None:
            rays = points.neighbours(rp, a.rayParam, a.dist, len(legs))
        lo, hi = points.between(rp, a.rayParam, legs, rays, Depth(d), leg)[:2]
        if any(abs(q.depth - d) <= near and lo * R2D - 0.5 - scale <=
               q.distRadian * R2D <= hi * R2D + 0.5 + scale for q in pts):
            R.n("crossings found between neighbouring rays")
            continue
        R.bad("%s: pierce points miss the %s at %.3f km (%.3f deg, %.3f s): "
              "%s" % (where, kind, d, x * R2D, t, [
                  "%.1f km %.2f deg" % (q.depth, q.distRadian * R2D)
                  for q in pts]))
        return
    if not strict:
        return
    turns = [w[0] for w in want if w[3] == "turn"]
    for q in pts[1:]:
        if min(abs(q.depth - d) for d in list(depths) + [0.]) > 1e-5 and \
                not any(abs(q.depth - d) < 60 for d in turns):
            R.bad("%s: pierce point at %.3f km, where there is no "
                  "discontinuity and no turning point" % (where, q.depth))
            return
