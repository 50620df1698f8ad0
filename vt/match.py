"""Comparison of the returned arrivals with the rays of the reference."""
import math

from .oracle import Curve, R2D, snap
from .ref import BadPhase


class Tol(object):
    """observed deviations on the unchanged tree, times about 2"""
    def __init__(self, T=0.35, p=6., edge_p=10., X=1.0, f=0.0075,
                 many=None):
        self.T, self.p, self.edge_p, self.X = T, p, edge_p, X / R2D
        self.f = f
        # (time per leg, ray parameter) for multiples, where the whole of a
        # coarsely sampled layer comes up within a few degrees
        self.many = many


NORMAL = Tol()
LVZ = Tol(T=1.4, p=12., edge_p=16., X=1.5, f=0.017, many=(0.8, 24.))
COARSE = Tol(T=4., p=25., edge_p=30., X=3.)


def curve(W, model, name, zs, npts=None):
    def make():
        try:
            return Curve(W.ref(model), name, zs, npts)
        except BadPhase:
            return None
    return W.memo(("curve", model, name, zs, npts), make)


def effective_depth(W, model, zs):
    return W.memo(("snap", model, zs),
                  lambda: snap(W.model(model).model, zs))


def compare(cur, deg, arrivals, tol):
    """
    arrivals: those of the phase.  Returns (pairs, extra, missing):
    pairs [(arrival, (p, T, X), margin to the end of the run)],
    extra [(arrival, why)], missing [(p, T, X, margin)] without the ones
    that the interpolation between slowness samples can explain.
    """
    rays = []
    # the distance between samples grows with the number of legs
    legs = sum(c in "PSKIJ" for c in cur.rp.name)
    lim = tol.X * max(1., 0.5 * legs)
    # the slowness of a change of gradient need not be among the samples, so
    # that the tip of a fold next to a zone is missed
    tip = max(lim, 2.5 / R2D * legs) if tol.many else lim
    tolT = tol.T * max(1., legs / 6.)
    tolp, tolep = tol.p, tol.edge_p
    if tol.many and legs > 3:
        tolT = max(tolT, tol.many[0] * legs)
        tolp = tolep = tol.many[1]
    for x in cur.targets(deg):
        for p, T, run in cur.rays(x):
            rays.append((p, T, x, run, run.margin(x)))
    cand = []
    for i, a in enumerate(arrivals):
        for j, (p, T, x, run, eg) in enumerate(rays):
            if abs(x - a.dist) > 1e-7:
                continue
            dt, dp = abs(a.time - T), abs(a.rayParam - p)
            # the samples of crustal rays are farther apart
            most = max(tolp if eg > lim else tolep, tol.f * p)
            if dt <= tolT and dp <= most:
                cand.append((dt / tolT + dp / tolp, i, j))
    cand.sort()
    gi, gj, pairs = set(), set(), []
    for _, i, j in cand:
        if i not in gi and j not in gj:
            gi.add(i)
            gj.add(j)
            p, T, x, run, eg = rays[j]
            pairs.append((arrivals[i], (p, T, x), eg))
    extra = []
    for i, a in enumerate(arrivals):
        if i in gi:
            continue
        ok = False
        for run in cur.runs:
            for k in (0, -1):
                dx = a.dist - run.X[k]
                dp = a.rayParam - run.p[k]
                if abs(dx) <= lim and abs(dp) <= tol.edge_p and abs(
                        a.time - run.T[k] - 0.5 * (run.p[k] + a.rayParam)
                        * dx) <= tolT:
                    ok = True
        if not ok:
            extra.append(a)
    missing = [rays[j][:3] + (rays[j][4],) for j in range(len(rays))
               if j not in gj and rays[j][4] > tip]
    return pairs, extra, missing, len(rays)


def describe(a):
    return "%s t=%.3f s p=%.4f s/rad dist=%.4f deg" % (
        a.name, a.time, a.rayParam, a.dist * R2D)


def nearest(cur, a):
    """text: rays of the phase at that distance"""
    rs = cur.rays(a.dist)
    if not rs:
        return "no ray of this phase travels that distance (closest: " \
               "%.2f deg away)" % (cur.gap(a.dist) * R2D)
    return "rays there: " + ", ".join(
        "t=%.3f p=%.4f" % (T, p) for p, T, _ in rs[:8])
