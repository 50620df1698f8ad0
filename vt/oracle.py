"""
Exact ray curves of the reference and their comparison with arrivals.
"""
import math

import numpy as np

from .ref import BadPhase, RefPhase

R2D = 180. / math.pi


class Run(object):
    """a continuous monotone piece of X(p)"""
    __slots__ = ("p", "X", "T", "lo", "hi", "vertical")

    def __init__(self, p, X, T, vertical=None):
        self.p, self.X, self.T = p, X, T
        self.lo, self.hi = min(X[0], X[-1]), max(X[0], X[-1])
        # the distance of the vertical ray, if it is the end of the run
        self.vertical = vertical

    def margin(self, x):
        """how far x is inside the run; the ray with p = 0 is an ordinary
        one"""
        a, b = x - self.lo, self.hi - x
        if self.vertical is not None:
            if self.vertical == self.lo:
                a = math.inf
            else:
                b = math.inf
        return min(a, b)


class Curve(object):
    """all rays of a phase: X(p), T(p) split into monotone runs"""
    JUMP = 0.02 / R2D

    def __init__(self, model, name, zs, npts=None):
        self.rp = rp = RefPhase(model, name, zs)
        self.runs = []
        self.Xmax = -1.
        if rp.impossible or rp.head is not None:
            return
        kn = rp.knots()
        if len(kn) < 2:
            return
        ntot = npts or 2400
        ps = []
        span = kn[-1] - kn[0]
        for a, b in zip(kn[:-1], kn[1:]):
            if b - a <= 1e-9 * max(b, 1.):
                continue
            n = int(min(200, max(7, ntot * (b - a) / span,
                                 0.5 * ntot / len(kn))))
            u = 0.5 - 0.5 * np.cos(np.linspace(0, math.pi, n))
            e = 1e-9
            u = e + (1 - 2 * e) * u
            # denser at the ends: X can have a square root there
            q = a + (b - a) * u
            # the integrals are ill conditioned close to p = 0
            ps.append(np.maximum(q, 1e-3 + 1e-9 * np.arange(len(q))))
        if not ps:
            return
        p = np.concatenate(ps)
        X, T = rp.trace(p)
        n0 = 0
        pieces = []
        for q in ps:
            pieces.append((n0, n0 + len(q)))
            n0 += len(q)
        self.p, self.X, self.T = p, X, T
        # split at gaps, at jumps between intervals, and where the direction
        # changes by more than WIGGLE
        starts = set(a for a, b in pieces)
        part = []
        for i in range(len(p)):
            if np.isnan(X[i]) or (part and i in starts and
                                  abs(X[i] - X[part[-1]]) > self.JUMP):
                self._split(part)
                part = []
            if not np.isnan(X[i]):
                part.append(i)
        self._split(part)
        if self.runs:
            self.Xmax = max(r.hi for r in self.runs)

    WIGGLE = 0.01 / R2D

    def _split(self, part):
        X = self.X
        while len(part) > 1:
            # find the first turning point of more than WIGGLE
            hi = lo = 0
            cut = None
            up = None
            for k in range(1, len(part)):
                x = X[part[k]]
                if x > X[part[hi]]:
                    hi = k
                if x < X[part[lo]]:
                    lo = k
                if up is None:
                    if X[part[hi]] - X[part[lo]] > self.WIGGLE:
                        up = hi > lo
                elif up and x < X[part[hi]] - self.WIGGLE:
                    cut = hi
                    break
                elif not up and x > X[part[lo]] + self.WIGGLE:
                    cut = lo
                    break
            if cut is None:
                self._add(part)
                return
            if cut > 0:
                self._add(part[:cut + 1])
            part = part[max(cut, 1):] if cut > 0 else part[1:]

    def _add(self, idx):
        if len(idx) > 1:
            X = self.X[idx]
            # monotone but for the wiggles
            X = np.maximum.accumulate(X) if X[-1] >= X[0] \
                else np.minimum.accumulate(X)
            p, T, v = self.p[idx], self.T[idx], None
            x0 = math.pi * round(X[0] / math.pi)
            if p[0] < 2e-3 and abs(X[0] - x0) < 1e-3 and (
                    X[0] == x0 or (X[0] < x0) == (X[-1] < X[0])):
                # the integrals are not evaluated at p = 0
                p = np.concatenate([[0.], p])
                X = np.concatenate([[x0], X])
                T = np.concatenate([[T[0] - 0.5 * p[1] * (X[1] - x0)], T])
                v = x0
            self.runs.append(Run(p, X, T, v))

    def targets(self, deg, extra=0.):
        """the distances (radians) a ray may travel to reach deg"""
        return fold_targets(deg, self.Xmax + extra)

    def rays(self, target):
        """[(p, T, run)] of the rays that travel exactly target"""
        out = []
        for r in self.runs:
            if not r.lo <= target <= r.hi:
                continue
            X = r.X
            if X[0] < X[-1]:
                i = int(np.searchsorted(X, target)) - 1
            else:
                i = len(X) - 1 - int(np.searchsorted(X[::-1], target))
            i = min(max(i, 0), len(X) - 2)
            pa, pb = r.p[i], r.p[i + 1]
            Xa, Xb, Ta, Tb = X[i], X[i + 1], r.T[i], r.T[i + 1]
            for _ in range(2):
                if abs(pb - pa) * abs(Xb - Xa) < 1e-3:
                    break
                q = np.linspace(pa, pb, 18)
                xx, tt = self.rp.trace(q)
                xx[0], xx[-1], tt[0], tt[-1] = Xa, Xb, Ta, Tb
                if np.isnan(xx).any():
                    break
                s = np.where((xx[:-1] - target) * (xx[1:] - target) <= 0)[0]
                if not len(s):
                    break
                k = s[0]
                pa, pb = q[k], q[k + 1]
                Xa, Xb, Ta, Tb = xx[k], xx[k + 1], tt[k], tt[k + 1]
            f = 0.5 if Xb == Xa else (target - Xa) / (Xb - Xa)
            pr = pa + f * (pb - pa)
            # tau is stationary: both estimates are second order accurate
            t1 = Ta + 0.5 * (pa + pr) * (target - Xa)
            t2 = Tb + 0.5 * (pb + pr) * (target - Xb)
            out.append((pr, (1 - f) * t1 + f * t2, r))
        return out

    def gap(self, target):
        """how far target is from the closest ray (radians)"""
        best = math.inf
        for r in self.runs:
            best = min(best, max(r.lo - target, target - r.hi, 0.))
        return best

    def end_gap(self, target):
        """how far target is from the closest end of a run"""
        best = math.inf
        for r in self.runs:
            best = min(best, abs(target - r.lo), abs(target - r.hi))
        return best


def fold_targets(deg, Xmax):
    d = math.radians(abs(deg) % 360.)
    if d > math.pi:
        d = 2 * math.pi - d
    out, n = [], 0
    while True:
        a = 2 * math.pi * n + d
        b = 2 * math.pi * (n + 1) - d
        new = [t for t in ((a,) if d in (0., math.pi) else (a, b))
               if t <= Xmax]
        if not new and a > Xmax:
            return out
        out += new
        n += 1
        if n > 50:
            return out


def snap(tau_model, z):
    """the depth the code really uses for a source within 1e-6 km of one of
    its branch boundaries"""
    for b in tau_model.getBranchDepths():
        if abs(b - z) < 1e-6:
            return float(b)
    return z
