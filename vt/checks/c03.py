"""Head, diffracted and surface waves arrive when and where they can."""
import math

from .. import match, oracle, phases, work
from ..oracle import R2D
from ..ref import BadPhase, RefPhase
from . import c01

RULE = ("case = (Earth model, source depth, head or diffracted wave or "
        "surface wave velocities); distances inside the exact range of the "
        "travelled segment, outside of it, and next to both of its ends; "
        "distinct non-trivial = (model, depth, phase, distance)")
NEED = {"arrivals inside the range": 1000, "nothing outside the range": 700,
        "surface wave arrivals": 400, "impossible sources": 50,
        "models built": 4}
ASSUME = c01.ASSUME
specs = c01.specs

# the travelled segment may be split between the legs of this kind
NAMES = ["Pn", "Sn", "Pdiff", "Sdiff", "pPdiff", "sPdiff", "pSdiff",
         "sSdiff", "PnPn", "SnSn", "pPn", "sPn", "pSn", "sSn", "PdiffP",
         "SdiffS", "PnP", "SnS"]
EDGE = 0.3      # degrees from the ends that are not decided


def cases(ctx):
    out = []
    mods = [s[0] for s in c01.specs_names(ctx)]
    for k in range(ctx.pick(120, 1500)):
        rng = ctx.rng(k)
        z = work.depth(rng)
        if rng.random() < 0.45:
            z = rng.choice([0., 5., 10., 20., 34.9, 35.,
                            round(rng.uniform(0, 40), 3)])
        out.append({"model": mods[k % len(mods)], "depth": z,
                    "phases": rng.sample(NAMES, 5),
                    "seed": rng.randrange(10 ** 9)})
    return out


def unit(case, W, R):
    import random
    rng = random.Random(case["seed"])
    model, z = case["model"], case["depth"]
    m, ref = W.model(model), W.ref(model)
    zs = match.effective_depth(W, model, z)
    for name in case["phases"]:
        try:
            rp = RefPhase(ref, name, zs)
        except BadPhase:
            R.n("phase not modelled by the reference")
            continue
        head_wave(W, R, rng, m, rp, model, z, name)
    surface(R, rng, m, ref, model, z)


def head_wave(W, R, rng, m, rp, model, z, name):
    ok = not rp.impossible and rp.head is not None
    if ok:
        ph, zh, arc, count = rp.head
        # not if the other legs cannot have this ray parameter
        X0, T0 = (float(v[0]) for v in rp.trace(ph, slack=1e-9))
        ok = not math.isnan(X0)
    if not ok:
        for _ in range(4):
            deg = work.distance(rng)
            aa = m.get_travel_times(z, deg, [name])
            if len(aa):
                R.bad("%s, depth %r km, %r deg: %s from a source that cannot "
                      "emit it" % (model, z, deg, match.describe(aa[0])))
                return
        R.n("impossible sources")
        return
    A, B = X0 * R2D, (X0 + arc) * R2D
    degs = []
    for _ in range(4):
        degs.append(rng.uniform(A + EDGE, B - EDGE))
    degs += [A + EDGE + 1e-3, B - EDGE - 1e-3, A - EDGE - 1e-3,
             B + EDGE + 1e-3, A - rng.uniform(EDGE, 5), B + rng.uniform(
                 EDGE, 10), rng.uniform(0, 180)]
    for x in degs:
        if x < 0:
            continue
        deg = x % 360.
        deg = 360. - deg if deg > 180 else deg
        if rng.random() < 0.3:
            deg = round(deg, 2)
        want = [t for t in oracle.fold_targets(deg, B / R2D + 1)
                if A + EDGE < t * R2D < B - EDGE]
        maybe = [t for t in oracle.fold_targets(deg, B / R2D + 1)
                 if A - EDGE <= t * R2D <= A + EDGE or B - EDGE <= t * R2D <=
                 B + EDGE or count > 1 and B < t * R2D <
                 B + EDGE + (count - 1) * arc * R2D]
        aa = m.get_travel_times(z, deg, [name])
        where = "%s, depth %r km, %r deg, %s" % (model, z, deg, name)
        R.seen(model, z, name, deg)
        left = list(want)
        for a in aa:
            near = [t for t in left if abs(t - a.dist) < 1e-8]
            if not near and not any(abs(t - a.dist) < 1e-8 for t in maybe):
                R.bad("%s: %s, but it travels from %.3f to %.3f deg" % (
                    where, match.describe(a), A, B))
                return
            T = T0 + ph * (a.dist - X0)
            dT, dp = abs(a.time - T), abs(a.rayParam - ph)
            R.max("time (s)", dT, where)
            R.max("ray parameter (s/rad)", dp, where)
            if dT > TTOL or dp > PTOL:
                R.bad("%s: %s, but the head wave arrives at %.3f s with "
                      "p=%.4f s/rad" % (where, match.describe(a), T, ph))
                return
            if near:
                left.remove(near[0])
                R.n("arrivals inside the range")
        if left:
            R.bad("%s: no arrival, but the head wave travels from %.3f to "
                  "%.3f deg" % (where, A, B))
            return
        if not want and not maybe:
            R.n("nothing outside the range")


TTOL = 0.05
PTOL = 0.01


def surface(R, rng, m, ref, model, z):
    for _ in range(3):
        v = rng.choice([rng.uniform(0.3, 12), float(rng.randint(1, 9))])
        text = rng.choice(["%.1f", "%.2f", "%g", "%.4f"]) % v
        v = float(text)
        if v <= 0:
            continue
        name = text + "kmps"
        deg = work.distance(rng)
        aa = m.get_travel_times(z, deg, [name])
        where = "%s, depth %r km, %r deg, %s" % (model, z, deg, name)
        want = [(t, t * ref.R / v) for t in
                oracle.fold_targets(deg, 2 * math.pi * (1 + 1e-12))]
        got = sorted((a.dist, a.time) for a in aa)
        if len(got) != len(want) or any(
                abs(g[0] - w[0]) > 1e-9 or abs(g[1] - w[1]) > 1e-6 + 1e-9 *
                w[1] for g, w in zip(got, want)):
            R.bad("%s: arrivals (deg, s) %s instead of %s" % (
                where, [(x * R2D, t) for x, t in got],
                [(x * R2D, t) for x, t in want]))
        for a in aa:
            if abs(a.rayParam - ref.R / v) > 1e-9 * ref.R / v or \
                    a.name != name:
                R.bad("%s: %s, expected p=%.6f" % (where, match.describe(a),
                                                   ref.R / v))
        R.n("surface wave arrivals", len(aa))
        R.seen(model, z, name, deg)
