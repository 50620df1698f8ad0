"""Workloads shared by several checks."""
from . import models as M


def standard_specs(ctx, lvz=False, npert=1):
    sb = ctx.sb
    out = [("iasp91", sb.tvel_text("iasp91"), {}),
           ("ak135", sb.tvel_text("ak135"), {}),
           ("mini", M.tvel(M.mini()), {}), ("many", M.tvel(M.many()), {})]
    for k in range(npert):
        s = ctx.rng("pert", k).randrange(10 ** 6)
        out.append(("pert%d" % k, M.tvel(M.perturbed(s)), {}))
    if lvz:
        out += lvz_specs()
    return out


def lvz_specs():
    return [(n, M.tvel(getattr(M, n)()), {})
            for n in ("lvz", "lvzstep", "lvzmix", "lvzlid")]


def depth(rng, zmax=2800.):
    r = rng.random()
    if r < 0.12:
        return 0.0
    if r < 0.3:
        return rng.choice([20., 35., 410., 660.])
    if r < 0.4:
        return float(rng.choice([1, 5, 10, 15, 33, 50, 100, 150, 200, 300,
                                 500, 600, 700]))
    if r < 0.75:
        return round(rng.uniform(0.01, 700), rng.choice([0, 1, 3, 6]))
    return round(rng.uniform(700, zmax), rng.choice([1, 3]))


def distance(rng):
    r = rng.random()
    if r < 0.06:
        return rng.choice([0., 180., 360., 90.])
    if r < 0.25:
        return float(rng.randint(0, 180))
    if r < 0.35:
        return round(rng.uniform(0, 5), 3)
    if r < 0.42:
        return round(rng.uniform(175, 180), 3)
    return round(rng.uniform(0, 180), rng.choice([1, 3, 6]))
