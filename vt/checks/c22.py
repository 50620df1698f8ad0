"""Low velocity zones cast their shadows."""
import math

from .. import match, models as M, phases, points, work
from ..oracle import R2D
from . import c01, c09, c10

RULE = ("case = (Earth model with low velocity zones in the mantle, source "
        "depth, phase names, distances); the arrivals are compared both ways "
        "with the rays of the reference, or the pierce or path points with "
        "the traced ray; distinct non-trivial = (model, depth, phase, "
        "distance) with a ray or an arrival, or arrivals with points")
NEED = {"arrivals compared": 1200, "rays compared": 1200,
        "pierce points compared": 1500, "path points compared": 5000,
        "shadowed distances": 25, "sources in a zone": 15,
        "shadowed distances beyond 360 degrees": 5,
        "models built": 4}
ASSUME = c01.ASSUME + [
    "rays within 2.5 degrees per leg of the end of a travel time branch may "
    "be lost",
    "the layer above a zone is coarsely sampled: times are good to 1.4 s"]


def randoms(ctx):
    return ctx.pick(3, 8)


def specs(ctx):
    return work.lvz_specs() + [
        ("rlvz%d" % k, M.tvel(M.random_lvz(
            ctx.rng("lvz", k).randrange(10 ** 6))), {})
        for k in range(randoms(ctx))]


def zones(rows):
    """depth ranges with a velocity inversion"""
    out = []
    for w in (1, 2):
        top = None
        best = (0., 0.)
        for r in rows:
            if r[0] > 2889 or r[2] == 0:
                break
            if r[w] < best[1] and top is None:
                top = best[0]
            if top is not None and r[w] >= best[1]:
                out.append((top, r[0]))
                top = None
            if r[w] >= best[1]:
                best = (r[0], r[w])
    return out


def discontinuities(rows):
    return ["%.0f" % a[0] for a, b in zip(rows[:-1], rows[1:])
            if 100 < a[0] == b[0] < 2800]


def cases(ctx):
    from ..ref import parse_tvel
    sp = specs(ctx)
    zz = {n: zones(parse_tvel(t)) for n, t, _ in sp}
    names = [s[0] for s in sp]
    named = {n: ["m"] + discontinuities(parse_tvel(t)) for n, t, _ in sp}
    out = []
    for k in range(ctx.pick(260, 2500)):
        rng = ctx.rng("case", k)
        what = ["rays", "rays", "pierce", "rays", "path"][k % 5]
        model = names[(k // 5 + k) % len(names)]
        n = 12 if what == "rays" else 8
        pool = phases.COMMON + phases.MORE
        ph = set(rng.sample(pool, n * 2 // 3) + rng.sample(
            ["P", "S", "PP", "SS", "pP", "sS", "PcP", "ScS", "SKS", "PKP"],
            3))
        while len(ph) < n + 2:
            ph.add(phases.random_name(rng, named=0.25, depths=named[model]))
        r = rng.random()
        z = work.depth(rng)
        inside = False
        if r < 0.35 and zz[model]:
            a, b = rng.choice(zz[model])
            z = round(rng.uniform(a, b), 2)
            inside = True
        elif r < 0.5 and zz[model]:
            a, b = rng.choice(zz[model])
            z = round(rng.choice([a, b]) + rng.choice([-1, 1]) *
                      rng.uniform(0, 20), 2)
        if not 0 <= z < 2780:
            z, inside = 0., False
        if what == "rays":
            # multiples go around the Earth and meet the shadows there
            ph.add(rng.choice("PS") * rng.randint(6, 30))
        c = {"what": what, "model": model, "depth": z, "inside": inside,
             "phases": sorted(ph), "add": [],
             "api": rng.choice(["list", "lazy"]),
             "deg": [work.distance(rng)
                     for _ in range(8 if what == "rays" else 3)]}
        out.append(c)
    return out


def unit(case, W, R):
    model, z = case["model"], case["depth"]
    if case["inside"]:
        R.n("sources in a zone")
    if case["what"] == "pierce":
        return c09.unit(case, W, R, points.LVZ, False)
    if case["what"] == "path":
        return c10.unit(case, W, R, points.LVZ)

    def extra(cur, deg, a):
        R.bad("%s, depth %r km, %r deg: arrival %s is not a ray; %s" % (
            model, z, deg, match.describe(a), match.nearest(cur, a)))

    def missing(cur, name, deg, p, T, x, eg, aa):
        R.bad("%s, depth %r km, %r deg: no arrival for the ray of %s with "
              "t=%.3f s p=%.4f s/rad that travels %.4f deg (%.2f deg from "
              "the end of its branch); arrivals: %s" % (
                  model, z, deg, name, T, p, x * R2D, eg * R2D,
                  [match.describe(a) for a in aa][:6]))
    c01.monitor(case, W, R, match.LVZ, on_extra=extra, on_missing=missing)
    zs = match.effective_depth(W, model, z)
    for k, name in enumerate(case["phases"]):
        cur = match.curve(W, model, name, zs)
        if cur is None:
            continue
        # where the distance jumps from one ray parameter to the next
        rr = sorted(cur.runs, key=lambda r: r.p[0])
        at = []
        for u, v in zip(rr[:-1], rr[1:]):
            j = v.X[0] - u.X[-1]
            if abs(j) * R2D > 0.5:
                at.append(u.X[-1] + j * (0.2 + 0.6 * (k % 7) / 6.))
        if at:
            R.n("shadowed distances", len(at))
            R.n("shadowed distances beyond 360 degrees",
                int(sum(x > 2 * math.pi for x in at)))
            c01.monitor(dict(case, phases=[name],
                             deg=[float(x * R2D) for x in sorted(
                                 at, key=lambda x: x < 2 * math.pi)[:3]]),
                        W, R, match.LVZ, on_extra=extra, on_missing=missing)
