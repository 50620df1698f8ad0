"""Comparison of pierce and path points with the traced ray."""
import math

from . import match
from .oracle import R2D
from .ref import BadPhase, RefPhase


class PTol(object):
    def __init__(self, X=0.3, T=0.25, z=3., aX=1.0, aT=0.35):
        # points: degrees, seconds after the distance is accounted for, km
        self.X, self.T, self.z = X, T, z
        # the arrival itself
        self.aX, self.aT = aX, aT

    def of(self, name):
        """the tolerances for a phase: errors add up over the legs"""
        n = sum(c in "PSKIJ" for c in name) / 6.
        if n <= 1:
            return self
        return PTol(self.X * n, self.T * n, self.z, self.aX * n, self.aT * n)


NORMAL = PTol()
PATH = PTol(X=0.25, T=0.06, z=0.3)
LVZ = PTol(X=1.5, T=1.0, z=25., aX=12., aT=1.4)


def ray_of(W, model, name, zs, a):
    """(RefPhase, legs) of the traced ray with the arrival's ray parameter"""
    try:
        rp = W.memo(("phase", model, name, zs),
                    lambda: RefPhase(W.ref(model), name, zs))
    except BadPhase:
        return None, None
    if rp.impossible:
        return rp, None
    return rp, rp.walk(a.rayParam, a.dist)


def closest(rp, p, legs, q, start, tol):
    """(cost, leg, dX degrees, dtau, dz) of the best leg from start on"""
    best = None
    for j in range(start, len(legs)):
        w, z1, z2, X0, T0, X1, T1 = legs[j]
        lo, hi = (z1, z2) if z1 < z2 else (z2, z1)
        dz = max(lo - q.depth, q.depth - hi, 0.)
        if z1 == z2:
            x = min(max(q.distRadian, X0), X1)
            t = T0 + (x - X0) * p
        else:
            x, t = rp.on_leg(legs[j], p, min(max(q.depth, lo), hi))
        dx = (q.distRadian - x) * R2D
        dt = q.time - t - p * (q.distRadian - x)
        e = max(abs(dx) / tol.X, abs(dz) / tol.z, abs(dt) / tol.T)
        if best is None or e < best[0] - 1e-9:
            best = (e, j, dx, dt, dz)
    return best


def place(rp, p, legs, q, j):
    """(X, T) of the leg j at the depth of q"""
    w, z1, z2, X0, T0, X1, T1 = legs[j]
    lo, hi = min(z1, z2), max(z1, z2)
    if lo == hi:
        x = min(max(q.distRadian, X0), X1)
        return x, T0 + (x - X0) * p
    return rp.on_leg(legs[j], p, min(max(q.depth, lo), hi))


def between(rp, p, legs, rays, q, j):
    """range of X and T of the leg j at the depth of q among close rays"""
    xt = [place(rp, p, legs, q, j)] + [place(rp, pp, ll, q, j)
                                       for pp, ll in rays]
    xs, ts = [x for x, t in xt], [t for x, t in xt]
    return min(xs), max(xs), min(ts), max(ts)


def among(rp, p, legs, rays, q, start, tol, scale):
    """the leg on which q lies for one of the close rays"""
    ex, et = (tol.X + scale) / R2D, tol.T + p * scale / R2D
    for j in range(start, len(legs)):
        if not (min(legs[j][1:3]) - tol.z <= q.depth <=
                max(legs[j][1:3]) + tol.z):
            continue
        lo, hi, tlo, thi = between(rp, p, legs, rays, q, j)
        if lo - ex <= q.distRadian <= hi + ex and \
                tlo - et <= q.time <= thi + et:
            return j
    return None


def check_points(kind, pts, a, zs, rp, legs, R, tol, where, scale=0.):
    """
    Starts at the source, ends at the arrival, monotone, every point on the
    ray, legs in order.  scale: error of the ray's own end (degrees), which
    the points in between may share.
    """
    p = a.rayParam
    if not pts:
        R.bad("%s: no %s points" % (where, kind))
        return False
    ok = True

    def bad(msg):
        R.bad("%s: %s: %s" % (where, kind, msg))

    q = pts[0]
    if abs(q.depth - zs) > 1e-5 or q.distRadian != 0 or q.time != 0:
        bad("starts at %.6f km, %.6f deg, %.6f s" % (
            q.depth, q.distRadian * R2D, q.time))
        ok = False
    q = pts[-1]
    if kind == "pierce":
        ex, et = 1e-8, 1e-6
    else:
        # that of the traced ray with the ray parameter of the arrival
        ex, et = abs(legs[-1][5] - a.dist) * R2D + tol.X, tol.aT
    dx = (q.distRadian - a.dist) * R2D
    dt = q.time - a.time - p * (q.distRadian - a.dist)
    if abs(q.depth) > 1e-6 or not abs(dx) <= ex or not abs(dt) <= et:
        bad("ends at %.6f km, %.6f deg, %.6f s instead of the surface, "
            "%.6f deg, %.6f s" % (q.depth, q.distRadian * R2D, q.time,
                                  a.dist * R2D, a.time))
        ok = False
    R.max(kind + " end distance (deg)", abs(dx), where)
    R.max(kind + " end time (s)", abs(dt), where)
    for u, v in zip(pts[:-1], pts[1:]):
        if v.distRadian < u.distRadian - 1e-9 or v.time < u.time - 1e-7:
            bad("goes back from %.6f deg %.6f s to %.6f deg %.6f s" % (
                u.distRadian * R2D, u.time, v.distRadian * R2D, v.time))
            ok = False
            break
    start = 0
    rays = None
    for k, q in enumerate(pts):
        R.n(kind + " points compared")
        b = closest(rp, p, legs, q, start, tol)
        e, j, dx, dt, dz = b
        if kind == "pierce" and (abs(dx) > tol.X + scale or
                                 abs(dt) > tol.T):
            # interpolated between two rays, between which the distance of
            # this point can vary a lot if they turn close to it
            rays = rays or neighbours(rp, p, a.dist, len(legs))
            jj = among(rp, p, legs, rays, q, start, tol, scale)
            if jj is not None:
                j = jj
                R.n("points within the distances of neighbouring rays")
                dx = dt = dz = 0.
        if not (abs(dx) <= tol.X + scale and abs(dt) <= tol.T
                and abs(dz) <= tol.z):
            bad("point %d (%.3f km, %.4f deg, %.3f s) is not on the ray: off "
                "by %.3f deg, %.3f s, %.2f km" % (
                    k, q.depth, q.distRadian * R2D, q.time, dx, dt, dz))
            return False
        R.max(kind + " point distance (deg)", abs(dx) - scale, where)
        R.max(kind + " point time (s)", abs(dt), where)
        R.max(kind + " point depth (km)", abs(dz), where)
        start = j
    return ok


DP = 11.        # s/rad, the greatest slowness step of the default settings


def neighbours(rp, p, dist, n, dp=DP):
    """[(p, legs)] of rays with ray parameters close to p"""
    out = []
    qq = [p + k * dp for k in (-1., -0.6, -0.3, -0.1, 0.1, 0.3, 0.6, 1.)]
    qq = [q for q in qq if rp.pmin <= q <= rp.pmax]
    # the grazing rays
    qq += [q for q in (rp.pmin, rp.pmax) if abs(q - p) <= dp]
    qq += [q for q in rp.m.critical_slownesses() if abs(q - p) <= dp and
           rp.pmin <= q <= rp.pmax]
    for q in qq:
        if q > 1e-3:
            ll = rp.walk(q, dist)
            if ll is not None and len(ll) == n:
                out.append((q, ll))
    return out


def crossings(rp, p, legs, depths, zmin_gap=0.):
    """
    Expected pierce points [(depth, X, T, kind, margin, leg)]: the ends of the legs
    and the crossings of depths.  margin: how far (km) the leg goes on beyond
    the depth until it turns.
    """
    out = []
    n = len(legs)
    for k, leg in enumerate(legs):
        w, z1, z2, X0, T0, X1, T1 = leg
        lo, hi = min(z1, z2), max(z1, z2)
        turn_a = k > 0 and legs[k - 1][2] == z1 and z1 > z2 and \
            legs[k - 1][1] < z1
        turn_b = k + 1 < n and legs[k + 1][1] == z2 and z2 > z1 and \
            legs[k + 1][2] < z2
        mid = [d for d in depths if lo + 1e-9 < d < hi - 1e-9]
        mid.sort(reverse=z2 < z1)
        for d in mid:
            x, t = rp.on_leg(leg, p, d)
            out.append((d, x, t, "crossing", hi - d if turn_a or turn_b
                        else math.inf, k))
        out.append((z2, X1, T1, "turn" if turn_b else "end",
                    z1 - z2 if turn_a else math.inf, k))
    return out
