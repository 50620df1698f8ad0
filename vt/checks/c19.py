"""Source and receiver can be exchanged."""
import math
import random

from .. import match, phases, work
from ..oracle import R2D
from ..ref import tokens

RULE = ("case = a model and phases from a surface source, compared with their "
        "reversals arrival by arrival and point by point; or a source at "
        "depth, whose depth phases are cut where they first reach the "
        "surface: the leg up to there has to be an arrival of p or s, and the "
        "rest one of the phase from a surface source; distinct non-trivial = "
        "arrivals compared")
NEED = {"reversed arrivals": 600, "phases that are their own reversal": 300,
        "reversed points": 2500, "upgoing legs": 300, "rest of the ray": 300,
        "models built": 6}
ASSUME = ["reversed phases run through the same branches"]


def specs(ctx):
    return work.standard_specs(ctx, npert=ctx.pick(1, 3), lvz=True)


CONV = [("P410s", "S410P"), ("P660s", "S660P"), ("Pms", "SmP"),
        ("S410p", "P410S"), ("S660p", "P660S"), ("Smp", "PmS"),
        ("PKP660s", "S660PKP"), ("SKS410p", "P410SKS"),
        ("ScS660p", "P660ScS"), ("ScP660s", "S660PcS"),
        ("PcP660s", "S660PcP"), ("PKS410p", "P410SKP"),
        ("PKIKP410s", "S410PKIKP"), ("P660SPcP", "PcPS660p"),
        ("PP410s", "S410PP")]
FIXED = ("P S PP SS PPP SSS PcP ScS PcS ScP PKP PKIKP SKS SKIKS PKiKP SKiKS "
         "PKS SKP PKIKS SKIKP PKiKS PKKP SKKS PKKS SKKP PKJKP SKJKS PKJKS "
         "PKIIKP PKIKKIKP PS SP PSP SPS PPS SPP PKPPcP PcSSKP Pdiff Sdiff Pn "
         "Sn PnPn P^410P S^660S P^mP PvmP Pv410P Sv660S P^410S Pv660S S^410P "
         "PP^410S ScS^660S PcP^mP PKP^660PKS SKSP^410P PnS SPn PcPPv410S "
         "PSKS PKJIKP PKIJKP PKPPKP SKSSKS PKKKS SKPPcS ScSScS").split()


def reverse(name):
    for a, b in CONV:
        if name == a:
            return b
        if name == b:
            return a
    return "".join(reversed(tokens(name)))


def cases(ctx):
    out = []
    ss = [s[0] for s in specs(ctx)]
    for k in range(ctx.pick(120, 2600)):
        rng = ctx.rng(k)
        c = {"kind": "reverse" if k % 2 else "depth",
             "model": ss[(k // 2) % len(ss)],
             "deg": [work.distance(rng) for _ in range(4)],
             "seed": rng.randrange(10 ** 9)}
        if k % 2:
            names = set(rng.sample(FIXED, 9)) | set(
                rng.choice(x) for x in rng.sample(CONV, 3))
            while len(names) < 16:
                n = phases.random_name(rng, named=0.25, upgoing=False)
                tt = tokens(n)
                if not any(t[0].isdigit() or t in "ps" or t == "m"
                           for t in tt):
                    names.add(n)
            c["phases"] = sorted(names)
        else:
            c["depth"] = max(work.depth(rng, 2600.), 0.5)
            pool = [n for n in FIXED if n not in ("Pn", "Sn", "PnPn", "PnS",
                                                  "SPn")]
            c["phases"] = [rng.choice("ps") + n for n in rng.sample(pool, 9)]
        out.append(c)
    return out


def unit(case, W, R):
    (reversal if case["kind"] == "reverse" else depth)(case, W, R)


def group(aa):
    out = {}
    for a in aa:
        out.setdefault((a.name, round(a.dist * 1e7)), []).append(a)
    return out


def dangle(a, b):
    return abs(a - b)


def reversal(case, W, R):
    m = W.model(case["model"])
    rng = random.Random(case["seed"])
    names = case["phases"]
    rev = {n: reverse(n) for n in names}
    everything = sorted(set(names) | set(rev.values()))
    pts = rng.random() < 0.5
    for deg in case["deg"]:
        where = "%s, surface source, %r deg" % (case["model"], deg)
        f = m.get_pierce_points if pts else m.get_travel_times
        g = group(f(0., deg, everything))
        keys = sorted(set(k for k in g if k[0] in names) |
                      set((n, x) for n in names for r, x in g
                          if r == rev[n]))
        for n, x in keys:
            aa, bb = g.get((n, x), []), list(g.get((rev[n], x), []))
            if len(aa) != len(bb):
                if edge(m, deg, n, rev[n]):
                    R.n("near the end of a branch")
                    continue
                R.bad("%s: %d arrivals of %s, %d of its reversal %s: %s, %s" %
                      (where, len(aa), n, len(bb), rev[n],
                       [match.describe(y) for y in aa],
                       [match.describe(y) for y in bb]))
                return
            for a in aa:
                # closest one first: rays of nearly the same time
                bb.sort(key=lambda y: abs(y.time - a.time) * 10 +
                        abs(y.rayParam - a.rayParam))
                b = bb.pop(0)
                R.n("reversed arrivals")
                if rev[n] == n:
                    R.n("phases that are their own reversal")
                R.seen(where, n, a.time)
                what = "%s: %s and %s" % (where, match.describe(a),
                                          match.describe(b))
                dt, dp = abs(a.time - b.time), abs(a.rayParam - b.rayParam)
                # sines, as angles close to 90 degrees are not well determined
                da = max(abs(math.sin(math.radians(u)) -
                             math.sin(math.radians(v))) for u, v in (
                    (a.takeoffAngle, b.incidentAngle),
                    (a.incidentAngle, b.takeoffAngle)))
                R.max("time (s)", dt, what)
                R.max("ray parameter (s/rad)", dp, what)
                R.max("sine of the angle", da, what)
                if not (dt <= 0.01 and dp <= 0.2 and da <= 1e-3):
                    R.bad("%s: times %r, %r, ray parameters %r, %r, takeoff "
                          "%r, %r, incident %r, %r" % (
                              what, a.time, b.time, a.rayParam, b.rayParam,
                              a.takeoffAngle, b.takeoffAngle,
                              a.incidentAngle, b.incidentAngle))
                    return
                if pts and not points(a, b, R, what):
                    return


def edge(m, deg, n, r):
    def count(d):
        return (len(m.get_travel_times(0., d, [n])),
                len(m.get_travel_times(0., d, [r])))
    c = count(deg)
    return any(count(deg + e) != c and len(set(count(deg + e))) == 1
               for e in (1e-3, -1e-3, 0.05, -0.05))


def points(a, b, R, what):
    """every point that is no matter of definition (turning points,
    discontinuities) occurs in both"""
    n = len(b.pierce)
    for p in a.pierce:
        best = min(max(abs(p.depth - q.depth) / 1.0,
                       abs(a.time - p.time - q.time) / 0.1,
                       abs(a.dist - p.distRadian - q.distRadian) * R2D / 0.05)
                   for q in b.pierce)
        R.n("reversed points")
        R.max("point (of the limits)", best, what)
        if not best <= 1:
            R.bad("%s: the point at %r km, %r deg, %r s before the end is not "
                  "found when going back: %s" % (
                      what, p.depth, (a.dist - p.distRadian) * R2D,
                      a.time - p.time, [(q.depth, q.distRadian * R2D, q.time)
                                        for q in b.pierce]))
            return False
    return True


def depth(case, W, R):
    model, z = case["model"], case["depth"]
    m, ref = W.model(model), W.ref(model)
    lvz = model.startswith("lvz")
    lim = (1.0, 10.) if lvz else (0.2, 5.)
    for deg in case["deg"]:
        for a in m.get_pierce_points(z, deg, case["phases"]):
            if len(a.pierce) < 3:
                continue
            k = [i for i, q in enumerate(a.pierce) if i and q.depth == 0][0]
            q = a.pierce[k]
            where = "%s, depth %r km, %r deg, %s, first at the surface after "\
                "%.4f deg, %.4f s" % (model, z, deg, match.describe(a),
                                      q.distRadian * R2D, q.time)
            if k == len(a.pierce) - 1:
                R.bad("%s: it ends there" % where)
                return
            R.seen(where)
            if not leg(W, m, model, z, a.name[0], q.distRadian, q.time,
                       a.rayParam, lim, "upgoing legs", where, R):
                return
            if not leg(W, m, model, 0., a.name[1:], a.dist - q.distRadian,
                       a.time - q.time, a.rayParam, lim, "rest of the ray",
                       where, R):
                return


def leg(W, m, model, z, name, x, t, p, lim, event, where, R):
    """there is an arrival of this phase"""
    bb = [b for b in m.get_travel_times(z, x * R2D, [name])
          if abs(b.dist - x) < 1e-6]
    good = [b for b in bb if abs(b.time - t) <= lim[0] and
            abs(b.rayParam - p) <= lim[1]]
    if good:
        R.n(event)
        b = min(good, key=lambda b: abs(b.time - t))
        R.max(event + ": time (s)" + (", lvz" if lim[0] > 1 else ""),
              abs(b.time - t), where)
        R.max(event + ": ray parameter (s/rad)" + (", lvz" if lim[0] > 1
                                                   else ""),
              abs(b.rayParam - p), where)
        return True
    cur = match.curve(W, model, name, match.effective_depth(W, model, z))
    if cur is None:
        return True
    near = [min(x - run.lo, run.hi - x) * R2D for pp, T, run in cur.rays(x)
            if abs(T - t) <= lim[0] + 0.35 and abs(pp - p) <= lim[1] + 6]
    if not near or min(near) < 1.2:
        R.n("at the end of a branch")
        return True
    R.bad("%s: no arrival of %s from %r km at %.6f deg with about %.4f s and "
          "p=%.4f, but %s" % (where, name, z, x * R2D, t, p, [
              match.describe(b) for b in bb]))
    return False
