"""Reflections and conversions at named depths are honoured."""
import math
import random

from .. import match, models as M, phases, work
from ..oracle import R2D
from ..ref import BadPhase, tokens
from . import c01

RULE = ("case = (Earth model, source depth, phase names with a topside or "
        "underside reflection or a conversion at a number close to a "
        "discontinuity, distances); the arrivals are compared both ways with "
        "the rays of the reference that do this at the closest discontinuity, "
        "with those of the name that has its true depth, and the purist name "
        "with the rows of the model; distinct non-trivial = (model, depth, "
        "phase, distance) with a ray or an arrival")
NEED = {"arrivals compared": 1200, "rays compared": 1200,
        "purist names compared": 250, "names with the true depth": 250,
        "source on the wrong side": 60, "names with additional depths": 60, "models built": 5}
ASSUME = c01.ASSUME + [
    "numbers closest to the surface or the core are left out, and sources "
    "exactly on the discontinuity of a topside or underside reflection",
    "rays within 1 degree of the end of a travel time branch may be lost"]


def specs(ctx):
    return work.standard_specs(ctx, npert=ctx.pick(1, 3))


def rows_of(ctx):
    out = {}
    from ..ref import parse_tvel
    for n, t, _ in specs(ctx):
        r = parse_tvel(t)
        z = sorted(set(a[0] for a, b in zip(r[:-1], r[1:]) if a[0] == b[0]
                       and (a[1] != b[1] or a[2] != b[2])))
        out[n] = [x for x in z if x < 3500]
    return out


TEMPLATES = ("{a}^{d}{b} {a}v{d}{b} {a}{d}{o} {a}{d}{lo} {u}^{d}{a} "
             "{u}{d}{lu} {a}c{b}{d}{lb} {u}{a}^{d}{b} {u}{a}v{d}{b} "
             "PKP{d}s SKS{d}p {a}K{b}^{d}{a} {a}{d}{o}cP {a}{d}{o}K{b} "
             "{a}v{d}{b}{a} {a}{b}^{d}{a} {a}^{d}{b}^{d}{a} {a}{b}{d}{lb} "
             "{u}{d}{lu}{a} {a}c{b}v{d}{a} {u}^{d}{a}c{b} {a}{d}{lo}{b} "
             "{a}^{d}{b}{e}{lb} {a}v{d}{b}{e}{lb} {a}{d}{o}v{e}{o}").split()


def number(rng, zs, k):
    """a way to write a number that is closest to the k-th of the depths"""
    lo = 0.5 * (zs[k] + (zs[k - 1] if k else 0.))
    hi = 0.5 * (zs[k] + zs[k + 1])
    r = rng.random()
    if r < 0.2:
        x = zs[k]
    elif r < 0.4:
        x = lo + (hi - lo) * rng.choice([0.001, 0.01, 0.99, 0.999])
    elif r < 0.6:
        x = zs[k] + rng.uniform(-1, 1) * min(3, zs[k] - lo, hi - zs[k])
    else:
        x = rng.uniform(lo, hi)
    d = rng.choice([0, 1, 2, 4])
    s = "%.*f" % (d, x)
    while not lo + 1e-9 < float(s) < hi - 1e-9:
        d += 1
        s = "%.*f" % (d, x)
        if d > 12:
            return repr(zs[k])
    r = rng.random()
    return ("0" + s if r < 0.05 else s + "." if r < 0.1 and "." not in s else
            s)


def cases(ctx):
    rows = rows_of(ctx)
    names = sorted(rows)
    out = []
    for k in range(ctx.pick(130, 1500)):
        rng = ctx.rng("case", k)
        model = names[k % len(names)]
        zs = [z for z in rows[model]]
        inner = [i for i, z in enumerate(zs) if z < 2800]
        ph = []
        main = rng.choice(inner)
        for _ in range(14):
            i = main if rng.random() < 0.5 else rng.choice(inner)
            num = number(rng, zs, i)
            if rng.random() < 0.6:
                a, b = rng.choice("PS"), rng.choice("PS")
                o = "P" if a == "S" else "S"
                u = rng.choice("ps")
                ph.append(rng.choice(TEMPLATES).format(
                    a=a, b=b, o=o, lo=o.lower(), u=u,
                    lu="p" if u == "s" else "s",
                    lb="p" if b == "S" else "s", d=num,
                    e=number(rng, zs, rng.choice(inner))))
            else:
                ph.append(phases.random_name(
                    rng, depths=[num, number(rng, zs, rng.choice(inner))],
                    named=0.8, legs=2))
        r = rng.random()
        z = (work.depth(rng) if r < 0.4 else
             round(zs[main] + rng.choice([-1, 1]) * rng.uniform(0, 12), 3)
             if r < 0.7 else
             round(rng.uniform(zs[main], 2800), 2) if r < 0.85 else 0.)
        out.append({"model": model, "depth": max(z, 0.),
                    "phases": sorted(set(ph)),
                    "deg": [work.distance(rng) for _ in range(6)]})
    return out


def true_names(rp, name):
    """(the name with true depths, the purist name)"""
    a, b = "", ""
    for t in tokens(name):
        if t[0] in "^v" and t[1:] not in ("m", "c", "i"):
            d = repr(rp._discon(t[1:]))
            a, b = a + t[0] + d, b + t[0] + d
        elif t[0] in "^v":
            a, b = a + t, b + t[0] + repr(rp._discon(t[1:]))
        elif t[0].isdigit() or t[0] == ".":
            d = repr(rp._discon(t))
            a, b = a + d, b + d
        else:
            a, b = a + t, b + t
    return a, b


def additional(case, W, R, name, cur):
    """a depth that pierce points are asked for is no discontinuity"""
    from taupy.TauP_Pierce import TauP_Pierce
    model, z, deg = case["model"], case["depth"], case["deg"][-1]
    num = [t.lstrip("^v") for t in tokens(name)]
    num = [float(t) for t in num if t.replace(".", "").isdigit()]
    rng = random.Random(name + repr(z))
    if not num or rng.random() < 0.8:
        return True
    add = [round(x + rng.choice([0, 0, 3, -3]), 3) for x in num]
    add = [x for x in add if 1 < x < 2800]
    if rng.random() < 0.5:
        add.append(round(rng.uniform(5, 5000), 2))
    ans = []
    for extra in ([], add):
        t = TauP_Pierce(W.model(model).model, [name], z, deg)
        t.addDepth = extra
        t.run()
        ans.append(sorted((a.rayParam, a.time) for a in t.arrivals))
    R.n("names with additional depths")
    u, v = ans
    for a, b in ((u, v), (v, u)):
        for p, t in a:
            # the tables have a few more samples
            if not any(abs(p - q) < 8 and abs(t - s) < 0.35 for q, s in b) \
                    and not cur.end_gap(math.radians(deg)) < 2. / R2D and \
                    all(cur.end_gap(x) > 2. / R2D for x in
                        cur.targets(deg, 0.1)):
                R.bad("%s, depth %r km, %r deg: with pierce points at %s, "
                      "the arrivals of %s (p, t) are %s instead of %s" % (
                          model, z, deg, add, name, v[:5], u[:5]))
                return False
    return True


def unit(case, W, R, tol=match.NORMAL):
    model, z = case["model"], case["depth"]
    m = W.model(model)
    zs = match.effective_depth(W, model, z)
    skip = set()
    for n in case["phases"]:
        # unspecified: a reflection directly after a conversion without a leg
        tk = tokens(n)
        for x, y in zip(tk[:-1], tk[1:]):
            if y[0] == "v" and x in "PS" and "c" in tk[:tk.index(y)]:
                i = tk.index(y)
                if i >= 2 and tk[i - 2] == "c":
                    skip.add(n)
    case = dict(case, phases=[n for n in case["phases"] if n not in skip])

    def extra(cur, deg, a):
        R.bad("%s, depth %r km, %r deg: arrival %s is not a ray; %s" % (
            model, z, deg, match.describe(a), match.nearest(cur, a)))

    def missing(cur, name, deg, p, T, x, eg, aa):
        R.bad("%s, depth %r km, %r deg: no arrival for the ray of %s with "
              "t=%.3f s p=%.4f s/rad that travels %.4f deg (%.2f deg from "
              "the end of its branch); arrivals: %s" % (
                  model, z, deg, name, T, p, x * R2D, eg * R2D,
                  [match.describe(a) for a in aa][:6]))
    c01.monitor(case, W, R, tol, on_extra=extra, on_missing=missing)
    if R.violations:
        return
    for name in case["phases"]:
        cur = match.curve(W, model, name, zs)
        if cur is None:
            continue
        if not additional(case, W, R, name, cur):
            return
        if cur.rp.impossible:
            R.n("source on the wrong side")
        true, purist = true_names(cur.rp, name)
        deg = case["deg"][0]
        u = m.get_travel_times(z, deg, [name])
        v = m.get_travel_times(z, deg, [true])
        R.n("names with the true depth")
        if [(a.time, a.rayParam, a.dist) for a in u] != [
                (a.time, a.rayParam, a.dist) for a in v]:
            R.bad("%s, depth %r km, %r deg: the arrivals of %s %s differ from "
                  "those of %s %s" % (
                      model, z, deg, name, [match.describe(a) for a in u][:4],
                      true, [match.describe(a) for a in v][:4]))
            return
        for a in u:
            R.n("purist names compared")
            if a.name != name or a.puristName != purist:
                R.bad("%s, depth %r km: %s is named %s with purist name %s "
                      "instead of %s" % (model, z, name, a.name,
                                         a.puristName, purist))
                return
