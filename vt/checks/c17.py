"""Scaling the planet scales the answers."""
import json
import math
import random
import re

from .. import match, phases, work
from ..ref import parse_tvel

RULE = ("case = requests (times, pierce points, paths) on a model and on one "
        "with scaled velocities, or scaled radius, depths and velocities, "
        "built from scaled tables either with parameters scaled as well or "
        "with the default ones; for velocities doubled or halved all numbers "
        "must scale to 1e-7; distinct non-trivial = pairs of arrivals "
        "compared")
NEED = {"pairs of arrivals": 600, "pairs of points": 5000,
        "exact pairs of arrivals": 200, "models built": 6}
ASSUME = ["sampling parameters are those of the unscaled model, scaled, "
          "unless the interpolation tolerance is used"]
BASES = ["iasp91", "mini", "lvzmix"]

# name: (factor of radius and depth, factor of velocity, parameters scaled,
# tolerances of time (s, in unscaled time), ray parameter (relative), angle)
EXACT = dict(T=1e-7, p=1e-7, a=1e-6)
TIGHT = dict(T=0.02, p=0.05, a=0.02)
LOOSE = dict(T=0.7, p=12., a=3.)


def variants(ctx):
    rng = ctx.rng("factors")
    k1 = round(rng.uniform(0.6, 0.9), 3)
    k2 = round(rng.choice([rng.uniform(0.8, 0.95), rng.uniform(1.05, 1.22)]),
               3)
    return {
        "double": (1., rng.choice([2., 0.5]), True, EXACT),
        "slower": (1., k1, True, TIGHT),
        "size": (k2, k2, True, TIGHT),
        "size2": (round(2.04 - k2, 3), round(2.04 - k2, 3), False, LOOSE),
        "faster": (1., round(2.1 - k1, 3), False, LOOSE)}


DEFAULT = dict(min_delta_p=0.1, max_delta_p=11., max_depth_interval=115.,
               max_range_interval=2.5, max_interp_error=0.05)


def tvel(rows):
    return "x - P\nx - S\n" + "".join(
        "%r %r %r %r\n" % tuple(float(x) for x in r) for r in rows)


def base_rows(ctx, name):
    from .. import models as M
    if name == "iasp91":
        return parse_tvel(ctx.sb.tvel_text("iasp91"))
    return getattr(M, name)()


def specs(ctx):
    out = []
    vv = variants(ctx)
    for i, b in enumerate(BASES):
        rows = base_rows(ctx, b)
        out.append((b, tvel(rows), dict(DEFAULT)))
        use = list(vv)
        if ctx.quick:
            use = [["double", "size"], ["slower", "size", "size2"],
                   ["faster", "double"]][i]
        for v in use:
            kr, kv, par, _ = vv[v]
            d = dict(DEFAULT)
            if par:
                for k in ("min_delta_p", "max_delta_p", "max_interp_error"):
                    d[k] *= kr / kv
                d["max_depth_interval"] *= kr
            out.append((b + "_" + v, tvel(
                [(z * kr, p * kv, s * kv, r) for z, p, s, r in rows]), d))
    return out


def cases(ctx):
    vv = variants(ctx)
    pairs = [s[0] for s in specs_names(ctx)]
    out = []
    for k in range(ctx.pick(90, 2000)):
        rng = ctx.rng(k)
        name = pairs[k % len(pairs)]
        b, v = name.split("_")
        kr, kv, _, tol = vv[v]
        names = set(rng.sample(phases.COMMON + phases.MORE +
                               phases.CONVERTED + phases.HEAD, 9))
        while len(names) < 12:
            names.add(phases.random_name(rng, named=0.3))
        names.add("3kmps")
        out.append({"base": b, "other": name, "kr": kr, "kv": kv, "tol": tol,
                    "kind": rng.choice(["times", "times", "pierce", "path"]),
                    "depth": work.depth(rng), "phases": sorted(names),
                    "deg": [work.distance(rng) for _ in range(5)]})
    return out


def specs_names(ctx):
    out = []
    for i, b in enumerate(BASES):
        use = list(variants(ctx))
        if ctx.quick:
            use = [["double", "size"], ["slower", "size", "size2"],
                   ["faster", "double"]][i]
        out += [(b + "_" + v,) for v in use]
    return out


def rename(name, kr, kv):
    if name.endswith("kmps"):
        return "%gkmps" % (float(name[:-4]) * kv)
    return re.sub(r"\d+(\.\d+)?",
                  lambda m: "%.10g" % (float(m.group()) * kr), name)


def get(m, case, z, deg, names):
    f = {"times": m.get_travel_times, "pierce": m.get_pierce_points,
         "path": m.get_ray_paths}[case["kind"]]
    return f(z, deg, names)


def group(aa):
    out = {}
    for a in aa:
        out.setdefault((a.name, round(a.dist * 1e7)), []).append(a)
    return out


def unit(case, W, R):
    a, b = W.model(case["base"]), W.model(case["other"])
    kr, kv, tol = case["kr"], case["kv"], case["tol"]
    exact = tol["T"] == EXACT["T"]
    names = case["phases"]
    other = {n: rename(n, kr, kv) for n in names}
    z1 = case["depth"]
    z2 = z1 * kr
    for deg in case["deg"]:
        where = "%s at %r km and %s at %r km, %r deg" % (
            case["base"], z1, case["other"], z2, deg)
        u = group(get(a, case, z1, deg, names))
        v = group(get(b, case, z2, deg, [other[n] for n in names]))
        for (n, x), aa in u.items():
            bb = v.pop((other[n], x), [])
            if len(aa) != len(bb):
                if edge(a, b, z1, z2, deg, n, other[n], tol["T"]):
                    R.n("near the end of a branch")
                    continue
                R.bad("%s: %d arrivals of %s instead of %d: %s, %s" % (
                    where, len(bb), n, len(aa),
                    [match.describe(y) for y in aa],
                    [match.describe(y) for y in bb]))
                return
            for y, w in zip(aa, bb):
                R.n("pairs of arrivals")
                R.seen(where, n, y.time)
                if exact:
                    R.n("exact pairs of arrivals")
                if not same(y, w, n, kr, kv, tol, exact, where, R):
                    return
        for (n, x), bb in v.items():
            m = [k for k in names if other[k] == n][0]
            if edge(a, b, z1, z2, deg, m, n, tol["T"]):
                R.n("near the end of a branch")
                continue
            R.bad("%s: arrivals of %s in the second model only: %s" % (
                where, n, [match.describe(y) for y in bb]))
            return


def edge(a, b, z1, z2, deg, n1, n2, T):
    """the number of arrivals changes close to this distance"""
    d = 1.0 if T > 0.1 else 0.05 if T > 1e-3 else 1e-6
    for e in (d, -d, d / 4, -d / 4):
        if len(a.get_travel_times(z1, deg + e, [n1])) != len(
                a.get_travel_times(z1, deg, [n1])) or len(
                b.get_travel_times(z2, deg + e, [n2])) != len(
                b.get_travel_times(z2, deg, [n2])):
            return True
    # or close to this depth
    for e in (1e-3, -1e-3) if T > 1e-3 else ():
        if z1 + e >= 0 and len(a.get_travel_times(z1 + e, deg, [n1])) != \
                len(a.get_travel_times(z1, deg, [n1])):
            return True
    return False


def same(y, w, n, kr, kv, tol, exact, where, R):
    f = kr / kv
    kind = "exact" if exact else "loose" if tol["T"] > 0.1 else "tight"
    what = "%s: %s and %s" % (where, match.describe(y), match.describe(w))
    dt = abs(w.time - f * y.time) / f
    dp = abs(w.rayParam - f * y.rayParam) / f
    da = max(abs(w.takeoffAngle - y.takeoffAngle),
             abs(w.incidentAngle - y.incidentAngle))
    # angles of rays that leave horizontally change fast with p
    if max(abs(90 - x.takeoffAngle) for x in (y, w)) < 12 or \
            max(abs(90 - x.incidentAngle) for x in (y, w)) < 12:
        da /= 10
    R.max("time (s), " + kind, dt, what)
    R.max("ray parameter (s/rad), " + kind, dp, what)
    R.max("angle (deg), " + kind, da, what)
    if not (dt <= tol["T"] and dp <= tol["p"] and da <= tol["a"] and
            abs(w.dist - y.dist) <= 1e-12 + 1e-12 * abs(y.dist)):
        R.bad("%s: times %r, %r, ray parameters %r, %r, angles %r and %r, %r "
              "and %r do not have the ratio %r of the models" % (
                  what, y.time, w.time, y.rayParam, w.rayParam,
                  y.takeoffAngle, y.incidentAngle, w.takeoffAngle,
                  w.incidentAngle, f))
        return False
    for k in ("pierce", "path"):
        p, q = getattr(y, k) or [], getattr(w, k) or []
        if not p and not q:
            continue
        if tol["T"] > 0.1:
            continue        # other layers, other points
        if len(p) != len(q):
            if kind == "tight" and abs(len(p) - len(q)) <= 1:
                continue
            R.bad("%s: %d and %d %s points" % (what, len(p), len(q), k))
            return False
        for s, t in zip(p, q):
            R.n("pairs of points")
            d = [abs(t.time - f * s.time) / f, abs(t.depth - kr * s.depth),
                 abs(t.distRadian - s.distRadian) * 57.3]
            for lab, x in zip(("time (s)", "depth (km)", "distance (deg)"),
                              d):
                R.max("%s of points, %s" % (lab, kind), x, what)
            lim = (1e-7, 1e-6, 1e-6) if exact else (0.05, 0.5, 0.05)
            if not all(x <= l for x, l in zip(d, lim)):
                R.bad("%s: %s points at %r s, %r km, %r rad and %r s, %r km, "
                      "%r rad" % (what, k, s.time, s.depth, s.distRadian,
                                  t.time, t.depth, t.distRadian))
                return False
    return True
