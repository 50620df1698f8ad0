"""No arrival is missing."""
from .. import match
from . import c01
from ..oracle import R2D

RULE = ("case = (Earth model, source depth, phase names, distances); the "
        "reference shoots all rays of the phase and finds those that reach "
        "the distance, also by going around the Earth; distinct non-trivial "
        "= (model, depth, phase, distance) with a ray or an arrival")
NEED = {"rays compared": 1500, "models built": 4}
ASSUME = c01.ASSUME + ["rays within 1 degree of the end of a travel time "
                       "branch may be lost between slowness samples"]
specs = c01.specs


def cases(ctx):
    return c01.make_cases(ctx, ctx.pick(150, 1600), 12, 8)


def unit(case, W, R, tol=match.NORMAL):
    model, z = case["model"], case["depth"]

    def missing(cur, name, deg, p, T, x, eg, aa):
        R.bad("%s, depth %r km, %r deg: no arrival for the ray of %s with "
              "t=%.3f s p=%.4f s/rad that travels %.4f deg (%.2f deg from "
              "the end of its branch); arrivals: %s" % (
                  model, z, deg, name, T, p, x * R2D, eg * R2D,
                  [match.describe(a) for a in aa][:6]))
    c01.monitor(case, W, R, tol, on_missing=missing)
