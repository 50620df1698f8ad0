"""Every reported arrival is a real ray."""
from .. import match, phases, work
from ..oracle import R2D

RULE = ("case = (Earth model, source depth, phase names, distances); names "
        "from the documented keywords, a list of further ones, and a grammar "
        "of legs; distinct non-trivial = (model, depth, phase, distance) "
        "for which at least one arrival was compared with the reference ray "
        "tracer")
NEED = {"arrivals compared": 1500, "models built": 4}
ASSUME = ["velocities are linear in depth between the rows of the model",
          "crust, mantle, fluid outer core, solid inner core; source in the "
          "crust or mantle"]


def specs(ctx):
    return work.standard_specs(ctx, npert=ctx.pick(1, 4))


def make_cases(ctx, n, npha, ndist, extra=(), named=0.25):
    out = []
    mods = [s[0] for s in specs_names(ctx)]
    for k in range(n):
        rng = ctx.rng("case", k)
        pool = phases.COMMON + phases.MORE + list(extra)
        names = set(rng.sample(pool, npha * 2 // 3))
        while len(names) < npha:
            names.add(phases.random_name(rng, named=named))
        if rng.random() < 0.5:
            names.add(phases.multiple(rng))
        out.append({"model": mods[k % len(mods)], "depth": work.depth(rng),
                    "phases": sorted(names),
                    "deg": [work.distance(rng) for _ in range(ndist)]})
    return out


def specs_names(ctx):
    return [(n,) for n in ["iasp91", "ak135", "mini", "many"]
            + ["pert%d" % k for k in range(ctx.pick(1, 4))]]


def cases(ctx):
    return make_cases(ctx, ctx.pick(150, 1600), 12, 8)


def monitor(case, W, R, tol, on_extra=None, on_missing=None):
    model, z = case["model"], case["depth"]
    m = W.model(model)
    zs = match.effective_depth(W, model, z)
    curves = {n: match.curve(W, model, n, zs) for n in case["phases"]}
    for deg in case["deg"]:
        arr = m.get_travel_times(z, deg, case["phases"])
        by = {}
        for a in arr:
            by.setdefault(a.name, []).append(a)
        for name in by:
            if name not in curves:
                R.bad("an arrival of %s, which was not asked for" % name)
        for name, cur in curves.items():
            aa = by.get(name, [])
            if cur is None:
                R.n("phase not modelled by the reference")
                continue
            pairs, extra, missing, nrays = match.compare(cur, deg, aa, tol)
            R.n("arrivals compared", len(aa))
            R.n("rays compared", nrays)
            if aa or nrays:
                R.seen(model, z, name, deg)
            for a, (p, T, x), eg in pairs:
                R.max("time (s)", abs(a.time - T), (model, z, deg, name))
                R.max("ray parameter (s/rad)" if eg > tol.X else
                      "ray parameter near the end of a branch (s/rad)",
                      abs(a.rayParam - p), (model, z, deg, name))
            if on_extra:
                for a in extra:
                    on_extra(cur, deg, a)
            if on_missing:
                for p, T, x, eg in missing:
                    on_missing(cur, name, deg, p, T, x, eg, aa)
            if pairs:
                R.sample({"model": model, "depth": z, "deg": deg,
                          "arrival": match.describe(pairs[0][0]),
                          "reference": {"time": pairs[0][1][1],
                                        "p": pairs[0][1][0]}})


def unit(case, W, R, tol=match.NORMAL):
    model, z = case["model"], case["depth"]

    def extra(cur, deg, a):
        R.bad("%s, depth %r km, %r deg: arrival %s is not a ray; %s" % (
            model, z, deg, match.describe(a), match.nearest(cur, a)))
    monitor(case, W, R, tol, on_extra=extra)
