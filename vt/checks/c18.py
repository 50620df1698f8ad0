"""Travel times are continuous in source depth."""
import random

from .. import match, phases, work
from ..oracle import R2D, snap

RULE = ("case = a model, a depth (random, a boundary, or close to one), and "
        "steps from 1e-9 km to 1 km up and down; the arrivals at both depths "
        "are matched ray by ray; an arrival that gets lost must be at the end "
        "of its branch in the reference model; near the surface depth phases "
        "are matched with the phases without the upgoing leg; distinct "
        "non-trivial = arrivals matched")
NEED = {"arrivals matched": 3000, "steps across a boundary": 60,
        "depth phases matched": 150, "models built": 4}
ASSUME = ["arrivals of the same phase, lap and branch belong to the same ray"]

TOL_T = 0.1         # s
TOL_P = 3.0          # s/rad


def specs(ctx):
    return work.standard_specs(ctx, npert=ctx.pick(1, 3), lvz=False)


POOL = phases.COMMON + phases.MORE + phases.CONVERTED + phases.HEAD
BARE = ["P", "S", "PcP", "ScS", "PKIKP", "SKS", "PP", "SS", "PKP", "PKiKP",
        "SKKS", "PcS", "ScP", "PS", "SP", "Pdiff", "Sdiff"]


def cases(ctx):
    from ..ref import parse_tvel
    out = []
    ss = specs(ctx)
    for k in range(ctx.pick(88, 1800)):
        rng = ctx.rng(k)
        name, text, _ = ss[k % len(ss)]
        bb = sorted(set(r[0] for r in parse_tvel(text) if r[0] < 2860))
        if k % 8 == 7:
            out.append({"kind": "surface", "model": name,
                        "depth": 10 ** rng.uniform(-5.5, -0.7),
                        "deg": [work.distance(rng) for _ in range(4)],
                        "phases": rng.sample(BARE, 8)})
            continue
        r = rng.random()
        if r < 0.3:
            z = rng.choice(bb)
        elif r < 0.5:
            z = rng.choice(bb) + rng.choice([-1, 1]) * 10 ** rng.uniform(-8,
                                                                         0)
        else:
            z = work.depth(rng)
        steps = [rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 0)
                 for _ in range(3)]
        out.append({"kind": "steps", "model": name, "depth": max(z, 0.),
                    "steps": steps, "seed": rng.randrange(10 ** 9),
                    "deg": [work.distance(rng) for _ in range(3)],
                    "phases": rng.sample(POOL, 10)})
    return out


def by_name(aa):
    out = {}
    for a in aa:
        out.setdefault(a.name, []).append(a)
    return out


def pair(aa, bb, limit, tol_p):
    """matches, closest ones first; and whether those without had candidates
    that are taken"""
    cand = []
    for i, a in enumerate(aa):
        for j, b in enumerate(bb):
            dt, dp = abs(b.time - a.time), abs(b.rayParam - a.rayParam)
            if abs(b.dist - a.dist) <= 1e-9 and dt <= limit and dp <= tol_p:
                cand.append((dt / limit + dp / tol_p, i, j))
    hit, used = {}, set()
    for _, i, j in sorted(cand):
        if i not in hit and j not in used:
            hit[i] = bb[j]
            used.add(j)
    crowded = set(i for _, i, j in cand if i not in hit)
    return hit, crowded


def unit(case, W, R):
    (steps if case["kind"] == "steps" else surface)(case, W, R)


def steps(case, W, R):
    model, z = case["model"], case["depth"]
    m, ref = W.model(model), W.ref(model)
    names = case["phases"]
    first = {}
    for dz in case["steps"]:
        z2 = z + dz
        if z2 < 0:
            z2 = z - dz
        dz = abs(z2 - z)
        lo, hi = min(z, z2), max(z, z2)
        if any(lo <= b <= hi for b in ref.zt + ref.zb):
            R.n("steps across a boundary")
        slow = max(1. / v for w in "PS" for zz in (z, z2) for v in (
            ref.vel_at(w, max(zz, 1e-9), True),
            ref.vel_at(w, max(zz, 1e-9), False)) if v > 0)
        limit = 1.02 * slow * dz + TOL_T
        for deg in case["deg"]:
            if deg not in first:
                first[deg] = by_name(m.get_travel_times(z, deg, names))
            u = first[deg]
            v = by_name(m.get_travel_times(z2, deg, names))
            where = "%s, %r deg, depths %r and %r km" % (model, deg, z, z2)
            for n in set(u) | set(v):
                for (za, aa), (zb, bb) in (((z, u.get(n, [])),
                                            (z2, v.get(n, []))),
                                           ((z2, v.get(n, [])),
                                            (z, u.get(n, [])))):
                    if not one(W, R, model, n, deg, za, aa, zb, bb, limit,
                               slow * dz, where):
                        return


def one(W, R, model, n, deg, za, aa, zb, bb, limit, allow, where):
    hit, crowded = pair(aa, bb, limit, TOL_P + allow * 4)
    rest = []
    for i, a in enumerate(aa):
        if i in hit:
            b = hit[i]
            R.n("arrivals matched")
            R.seen(where, n, a.time)
            R.max("change of time - slowness * step (s)",
                  abs(b.time - a.time) - allow, (where, n))
            R.max("change of ray parameter (s/rad)",
                  abs(b.rayParam - a.rayParam), (where, n))
        elif i in crowded:
            R.n("close to another arrival")
        else:
            rest.append(a)
    for a in rest:
        zs = match.effective_depth(W, model, zb)
        cur = match.curve(W, model, n, zs)
        if cur is None:
            continue
        # which ray is this at the other depth?
        rays = [(p, T, min(a.dist - run.lo, run.hi - a.dist))
                for p, T, run in cur.rays(a.dist)]
        near = [r for r in rays if abs(r[1] - a.time) <= limit + 0.15 and
                abs(r[0] - a.rayParam) <= 6 + allow * 4]
        if not near or min(r[2] for r in near) * R2D < 1.:
            R.n("lost at the end of a branch")
            continue
        R.bad("%s: %s at %r km has no counterpart at %r km (arrivals: %s), "
              "though the ray exists there (p=%.4f t=%.3f, %.2f deg from the "
              "end of its branch)" % (
                  where, match.describe(a), za, zb,
                  [match.describe(b) for b in bb], near[0][0], near[0][1],
                  near[0][2] * R2D))
        return False
    return True


def surface(case, W, R):
    model, z = case["model"], case["depth"]
    m, ref = W.model(model), W.ref(model)
    for deg in case["deg"]:
        names = [x + n for n in case["phases"] for x in ("", "p", "s")]
        got = by_name(m.get_travel_times(z, deg, names))
        for n in case["phases"]:
            for x in "ps":
                limit = 2.5 * z / ref.vel_at("S", z, False) + TOL_T
                aa, bb = got.get(x + n, []), got.get(n, [])
                hit, crowded = pair(aa, bb, limit, TOL_P)
                for i, a in enumerate(aa):
                    if i in hit:
                        R.n("depth phases matched")
                        R.seen(model, z, deg, n, a.time)
                        R.max("depth phase - phase (s)", abs(
                            a.time - hit[i].time), (model, z, deg, n))
                    if i in hit or i in crowded:
                        continue
                    cur = match.curve(W, model, n, snap(m.model, z))
                    rr = [min(a.dist - run.lo, run.hi - a.dist) * R2D
                          for p, T, run in cur.rays(a.dist)
                          if abs(T - a.time) <= limit + 0.15]
                    if not rr or min(rr) < 1.:
                        R.n("lost at the end of a branch")
                        continue
                    R.bad("%s, depth %r km, %r deg: %s has no counterpart %s "
                          "(%s)" % (model, z, deg, match.describe(a), n, [
                              match.describe(b) for b in got.get(n, [])]))
                    return
