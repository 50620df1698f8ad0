"""
Independent reference for ray theory in a spherically symmetric body.

Nothing in here imports or copies code under test.  The velocity model is
piecewise linear in depth between the rows of a table.  Ray integrals are
evaluated with closed-form antiderivatives of

    X = int p v / (r sqrt(r^2 - p^2 v^2)) dr
    T = int r   / (v sqrt(r^2 - p^2 v^2)) dr,     v = a + b r

per layer (no slowness sampling, no tau branches, no Bullen law).
All distances are radians, times seconds, ray parameters s/rad.
"""
import bisect
import math

import numpy as np

TINY_B = 1e-8


# --------------------------------------------------------------------------
# table parsing (independent of the code under test)
# --------------------------------------------------------------------------
def parse_tvel(text):
    """Rows (depth, vp, vs, rho); two header lines; '#' comments."""
    rows = []
    for line in text.split("\n")[2:]:
        line = line.split("#", 1)[0].strip()
        if not line:
            continue
        rows.append(tuple(float(x) for x in line.split()))
    return rows


def _sq(x):
    return np.sqrt(np.maximum(x, 0.0))


def layer_integral(a, b, r1, r2, p, turn=False):
    """
    One-way X, T through radii r1 <= r2 for v = a + b r.  Vectorised over p
    (and r1 if turn, where r1 is the turning radius).  r1 may be 0 only with
    p == 0.
    """
    p = np.asarray(p, dtype=float)
    r1 = np.broadcast_to(np.asarray(r1, dtype=float), p.shape)
    r2 = np.broadcast_to(np.asarray(r2, dtype=float), p.shape)
    X = np.zeros_like(p)
    T = np.zeros_like(p)
    if abs(b) < TINY_B:
        v = a + b * 0.5 * (r1 + r2)
        q1 = np.zeros_like(p) if turn else _sq(r1 ** 2 - (p * v) ** 2)
        q2 = _sq(r2 ** 2 - (p * v) ** 2)
        T = (q2 - q1) / v
        X = np.where(p > 0, np.arctan2(q2, p * v) - np.arctan2(q1, p * v), 0.)
        return X, T
    pos = p > 0
    # vertical
    v1, v2 = a + b * r1, a + b * r2
    Tv = np.log(v2 / v1) / b
    if not np.any(pos):
        return X, np.where(pos, T, Tv)
    pp = np.where(pos, p, 1.0)
    A = 1.0 - (pp * b) ** 2
    A = np.where(np.abs(A) < 1e-11, 1e-11, A)
    B = -2.0 * pp ** 2 * a * b
    C = -(pp * a) ** 2
    q2 = _sq((r2 - pp * v2) * (r2 + pp * v2))
    q1 = np.zeros_like(q2) if turn else _sq((r1 - pp * v1) * (r1 + pp * v1))
    sA = np.sqrt(np.abs(A))
    with np.errstate(all="ignore"):
        # I1 = int dr / sqrt(Q)
        n2 = 2 * sA * q2 + 2 * A * r2 + B
        n1 = 2 * sA * q1 + 2 * A * r1 + B
        m2 = 2 * sA * q2 - 2 * A * r2 - B
        m1 = 2 * sA * q1 - 2 * A * r1 - B
        # log(n2/n1); n and -m have product -(disc): use the larger one
        i1log = np.where(np.abs(n2) + np.abs(n1) >= np.abs(m2) + np.abs(m1),
                         np.log(np.abs(n2 / n1)),
                         np.log(np.abs(m1 / m2))) / sA
        i1at = (np.arctan2(-(2 * A * r2 + B), 2 * sA * q2)
                - np.arctan2(-(2 * A * r1 + B), 2 * sA * q1)) / sA
        I1 = np.where(A > 0, i1log, i1at)
        # I2 = int dr / (r sqrt(Q))
        s = pp * abs(a)
        if a == 0:
            # Q = r^2 (1 - p^2 b^2)
            return (np.where(pos, pp * b / sA * np.log(r2 / r1), 0.),
                    np.where(pos, np.log(r2 / r1) / (b * sA), Tv))
        I2 = (np.arctan2(B * r2 + 2 * C, 2 * s * q2 * r2 / r2)
              - np.arctan2(B * r1 + 2 * C, 2 * s * q1)) / s
        # J = a * int dr / (v sqrt(Q)):
        # with R = b^2 Q = A v^2 - 2 a v + a^2
        sg = 1.0 if b > 0 else -1.0
        s2 = abs(b) * q2
        s1 = abs(b) * q1
        u2 = (2 * abs(a) * s2 + 2 * a * a - 2 * a * v2) / v2
        u1 = (2 * abs(a) * s1 + 2 * a * a - 2 * a * v1) / v1
        w2 = (2 * abs(a) * s2 - 2 * a * a + 2 * a * v2) / v2
        w1 = (2 * abs(a) * s1 - 2 * a * a + 2 * a * v1) / v1
        jl = np.where(np.abs(u2) + np.abs(u1) >= np.abs(w2) + np.abs(w1),
                      -np.log(np.abs(u2 / u1)), np.log(np.abs(w2 / w1)))
        J = sg * (a / abs(a)) * jl
        Xp = pp * (a * I2 + b * I1)
        Tp = (I1 - J) / b
    return np.where(pos, Xp, 0.), np.where(pos, Tp, Tv)


def layer_scalar(a, b, r1, r2, p):
    """One-way X, T for a single ray; (nan, nan) if it cannot pass."""
    v1, v2 = a + b * r1, a + b * r2
    if p * v1 > r1 * (1 + 1e-14) or p * v2 > r2 * (1 + 1e-14):
        return math.nan, math.nan
    if p <= 0 or r1 <= 0:
        if p > 0:
            return math.nan, math.nan
        T = (r2 - r1) / a if abs(b) < TINY_B else math.log(v2 / v1) / b
        return (math.pi / 2 if r1 <= 0 else 0.), T
    q1 = math.sqrt(max((r1 - p * v1) * (r1 + p * v1), 0.))
    q2 = math.sqrt(max((r2 - p * v2) * (r2 + p * v2), 0.))
    if abs(b) < TINY_B:
        v = a + b * 0.5 * (r1 + r2)
        return (math.atan2(q2, p * v) - math.atan2(q1, p * v), (q2 - q1) / v)
    if a == 0 or abs(1 - (p * b) ** 2) < 1e-9:
        x, t = layer_integral(a, b, r1, r2, np.array([p]))
        return float(x[0]), float(t[0])
    A = 1. - (p * b) ** 2
    B = -2. * p * p * a * b
    C = -(p * a) ** 2
    sA = math.sqrt(abs(A))
    if A > 0:
        n2, n1 = 2 * sA * q2 + 2 * A * r2 + B, 2 * sA * q1 + 2 * A * r1 + B
        m2, m1 = 2 * sA * q2 - 2 * A * r2 - B, 2 * sA * q1 - 2 * A * r1 - B
        I1 = (math.log(abs(n2 / n1))
              if abs(n2) + abs(n1) >= abs(m2) + abs(m1)
              else math.log(abs(m1 / m2))) / sA
    else:
        I1 = (math.atan2(-(2 * A * r2 + B), 2 * sA * q2)
              - math.atan2(-(2 * A * r1 + B), 2 * sA * q1)) / sA
    s = p * abs(a)
    I2 = (math.atan2(B * r2 + 2 * C, 2 * s * q2)
          - math.atan2(B * r1 + 2 * C, 2 * s * q1)) / s
    s2, s1 = abs(b) * q2, abs(b) * q1
    aa = abs(a)
    u2 = (2 * aa * s2 + 2 * a * a - 2 * a * v2) / v2
    u1 = (2 * aa * s1 + 2 * a * a - 2 * a * v1) / v1
    w2 = (2 * aa * s2 - 2 * a * a + 2 * a * v2) / v2
    w1 = (2 * aa * s1 - 2 * a * a + 2 * a * v1) / v1
    jl = (-math.log(abs(u2 / u1)) if abs(u2) + abs(u1) >= abs(w2) + abs(w1)
          else math.log(abs(w2 / w1)))
    J = (1. if b > 0 else -1.) * (a / aa) * jl
    return p * (a * I2 + b * I1), (I1 - J) / b


class Profile(object):
    """X(z), T(z) of one wave type for a single ray parameter"""
    def __init__(self, m, w, p):
        self.m, self.w, self.p = m, w, p
        cx, ct, cn = [0.], [0.], [0]
        for i in range(len(m.layers)):
            vt, vb = m.v[w][i]
            if vt > 0 and vb > 0:
                a, b = m._ab(w, i)
                x, t = layer_scalar(a, b, m.R - m.zb[i], m.R - m.zt[i], p)
            else:
                x = t = math.nan
            bad = math.isnan(x)
            cx.append(cx[-1] + (0. if bad else x))
            ct.append(ct[-1] + (0. if bad else t))
            cn.append(cn[-1] + bad)
        self.cx, self.ct, self.cn = cx, ct, cn

    def _part(self, i, z1, z2):
        vt, vb = self.m.v[self.w][i]
        if not (vt > 0 and vb > 0):
            return math.nan, math.nan
        a, b = self.m._ab(self.w, i)
        return layer_scalar(a, b, self.m.R - z2, self.m.R - z1, self.p)

    def seg(self, z1, z2):
        """through z1 < z2"""
        m = self.m
        if not z1 < z2:
            return 0., 0.
        i = bisect.bisect_right(m.zt, z1) - 1       # layer below z1
        j = bisect.bisect_left(m.zb, z2)            # layer above z2
        if i == j:
            return self._part(i, z1, z2)
        x1, t1 = self._part(i, z1, m.zb[i])
        x2, t2 = self._part(j, m.zt[j], z2)
        if self.cn[j] != self.cn[i + 1]:
            return math.nan, math.nan
        return (x1 + x2 + self.cx[j] - self.cx[i + 1],
                t1 + t2 + self.ct[j] - self.ct[i + 1])


class RefModel(object):
    def __init__(self, rows, moho=35.0, cmb=2889.0, iocb=5153.9):
        self.rows = rows
        self.layers = []
        for (z1, p1, s1, d1), (z2, p2, s2, d2) in zip(rows[:-1], rows[1:]):
            if z1 != z2:
                self.layers.append((z1, z2, p1, p2, s1, s2, d1, d2))
        self.R = rows[-1][0]
        self._prof = {}
        self._pick_major(moho, cmb, iocb)
        L = self.layers
        self.zt = [l[0] for l in L]
        self.zb = [l[1] for l in L]
        self.v = {"P": [(l[2], l[3]) for l in L], "S": [(l[4], l[5]) for l in L]}

    # -- discontinuities ----------------------------------------------------
    def discontinuities(self):
        """[(depth, above layer, below layer)] interior first-order ones."""
        return [(a[1], a, b) for a, b in zip(self.layers[:-1], self.layers[1:])
                if a[3] != b[2] or a[5] != b[4]]

    def _pick_major(self, moho0, cmb0, iocb0):
        dd = self.discontinuities()
        best = [d for d, _, _ in dd if abs(d - moho0) < 65.0]
        self.moho = min(best, key=lambda d: abs(d - moho0)) if best else 0.0
        best = [d for d, _, _ in dd if abs(d - cmb0) < self.R]
        self.cmb = min(best, key=lambda d: abs(d - cmb0)) if best else self.R
        best = [d for d, a, b in dd if a[5] == 0.0 and b[4] > 0.0
                and abs(d - iocb0) < self.R - 100.0]
        self.iocb = min(best, key=lambda d: abs(d - iocb0)) if best else self.R
        if self.iocb == self.cmb:
            self.iocb = self.R

    # -- velocities ---------------------------------------------------------
    def vel_at(self, w, z, below):
        for i in range(len(self.layers)):
            if (self.zt[i] <= z < self.zb[i]) if below else \
                    (self.zt[i] < z <= self.zb[i]):
                t, b = self.v[w][i]
                return t + (b - t) * (z - self.zt[i]) / (self.zb[i] - self.zt[i])
        raise ValueError("no layer")

    def slow_at(self, w, z, below):
        return (self.R - z) / self.vel_at(w, z, below)

    def _ab(self, w, i):
        vt, vb = self.v[w][i]
        rt, rb = self.R - self.zt[i], self.R - self.zb[i]
        b = (vt - vb) / (rt - rb)
        return vt - b * rt, b

    def _part(self, w, i, z1, z2, p):
        """through part [z1, z2] of layer i; nan where p does not pass."""
        a, b = self._ab(w, i)
        r2, r1 = self.R - z1, self.R - z2
        v2, v1 = a + b * r2, a + b * r1
        p = np.asarray(p, float)
        ok = (p * v2 <= r2 * (1 + 1e-14)) & (p * v1 <= r1 * (1 + 1e-14))
        if r1 == 0:
            X = np.where(p == 0, math.pi / 2, np.nan)
            T = np.where(p == 0, (r2 / a if abs(b) < TINY_B
                                  else math.log(v2 / v1) / b), np.nan)
            return X, T
        X, T = layer_integral(a, b, r1, r2, p)
        return np.where(ok, X, np.nan), np.where(ok, T, np.nan)

    def profile(self, w, p):
        key = (w, p)
        if key not in self._prof:
            if len(self._prof) > 500:
                self._prof.clear()
            self._prof[key] = Profile(self, w, p)
        return self._prof[key]

    def seg(self, w, z1, z2, p):
        """One-way through [z1, z2], z1 < z2.  nan if the ray cannot."""
        p = np.asarray(p, float)
        X, T = np.zeros_like(p), np.zeros_like(p)
        for i in range(len(self.layers)):
            a, b = max(z1, self.zt[i]), min(z2, self.zb[i])
            if a < b:
                if self.v[w][i][0] == 0 or self.v[w][i][1] == 0:
                    return np.full_like(p, np.nan), np.full_like(p, np.nan)
                x, t = self._part(w, i, a, b, p)
                X, T = X + x, T + t
        return X, T

    def turn(self, w, z1, zmax, p):
        """
        One-way from z1 down to the turning (or total reflection) depth, which
        must be above zmax (exclusive of a reflection at zmax).
        Returns X, T, zturn (nan where the ray does not turn there).
        """
        p = np.asarray(p, float)
        X, T = np.zeros_like(p), np.zeros_like(p)
        zt = np.full_like(p, np.nan)
        active = np.ones(p.shape, bool)
        first = True
        for i in range(len(self.layers)):
            a_, b_ = max(z1, self.zt[i]), min(zmax, self.zb[i])
            if not a_ < b_:
                continue
            if self.v[w][i][0] == 0 or self.v[w][i][1] == 0:
                break
            a, b = self._ab(w, i)
            r2, r1 = self.R - a_, self.R - b_
            e2, e1 = r2 / (a + b * r2), r1 / (a + b * r1)
            tot = active & (p > e2 * (1 + 1e-14))
            if first:
                active &= ~tot          # cannot leave downward
                first = False
            else:
                zt = np.where(tot, a_, zt)
                active &= ~tot
            ins = active & (p >= e1) & (p > 0) & (r1 < r2)
            if np.any(ins):
                pi = p[ins]
                rt = pi * a / (1 - pi * b)
                rt = np.clip(rt, r1, r2)
                x, t = layer_integral(a, b, rt, r2, pi, turn=True)
                X[ins] += x
                T[ins] += t
                zt[ins] = self.R - rt
                active &= ~ins
            if r1 == 0:
                z0 = active & (p == 0)
                if np.any(z0):
                    x, t = self._part(w, i, a_, b_, p[z0])
                    X[z0] += x
                    T[z0] += t
                    zt[z0] = self.R
                    active &= ~z0
            if np.any(active):
                x, t = self._part(w, i, a_, b_, p[active])
                X[active] += x
                T[active] += t
        bad = np.isnan(zt)
        X[bad] = np.nan
        T[bad] = np.nan
        return X, T, zt

    def min_slow(self, w, z1, z2):
        """smallest slowness r/v over [z1, z2], limits from inside"""
        out = math.inf
        for i in range(len(self.layers)):
            a_, b_ = max(z1, self.zt[i]), min(z2, self.zb[i])
            if a_ < b_:
                if self.v[w][i][0] == 0 or self.v[w][i][1] == 0:
                    return -1.0             # no such wave in here
                a, b = self._ab(w, i)
                # r/(a+br) is monotone in r
                for z in (a_, b_):
                    r = self.R - z
                    out = min(out, r / (a + b * r) if r > 0 else 0.0)
        return out

    def is_discontinuity(self, z):
        return any(d == z for d, _, _ in self.discontinuities())

    def critical_slownesses(self):
        """slownesses at all knots, and the smallest ones so far (where the
        turning depth of a ray can jump)"""
        out = set([0.0])
        for w in "PS":
            for i in range(len(self.layers)):
                vt, vb = self.v[w][i]
                if vt > 0:
                    out.add((self.R - self.zt[i]) / vt)
                if vb > 0:
                    out.add((self.R - self.zb[i]) / vb)
        return sorted(out)


# --------------------------------------------------------------------------
# phase names -> ray geometry
# --------------------------------------------------------------------------
class BadPhase(Exception):
    """the reference does not model (or does not allow) this name"""


def tokens(name):
    out, i, n = [], 0, len(name)
    while i < n:
        c = name[i]
        if name.startswith(("Pdiff", "Sdiff"), i):
            out.append(name[i:i + 5])
            i += 5
        elif c in "PS" and i + 1 < n and name[i + 1] in "gn":
            out.append(name[i:i + 2])
            i += 2
        elif c in "PSKIJpsmci":
            out.append(c)
            i += 1
        elif c in "^v" or c.isdigit() or c == ".":
            j = i + 1
            if c in "^v" and j < n and name[j] in "mci":
                j += 1
            else:
                while j < n and (name[j].isdigit() or name[j] == "."):
                    j += 1
            out.append(name[i:j])
            i = j
        else:
            raise BadPhase(name)
    return out


class RefPhase(object):
    """
    A phase name turned into a list of pieces of ray path:
       ("down", w, z1, z2)   passes downward from z1 to z2
       ("up",   w, z2, z1)   passes upward from z2 (deep) to z1
       ("turn", w, z1, zmax, z3)  down from z1, turns above zmax, up to z3
       ("arc",  w, z)        along the discontinuity at z (head wave)
    """
    def __init__(self, model, name, zs):
        self.m, self.name, self.zs = model, name, zs
        self.head = None        # (p, depth, max total arc, count)
        self.pieces = []
        self.impossible = False
        self._parse()
        self.pmin, self.pmax = self._prange()
        if self.pmin > self.pmax:
            self.impossible = True

    def _discon(self, s):
        m = self.m
        if s in "mci":
            return {"m": m.moho, "c": m.cmb, "i": m.iocb}[s]
        d = float(s)
        cand = [z for z, _, _ in m.discontinuities() if z < m.cmb]
        return min(cand, key=lambda z: abs(z - d))

    def _no(self):
        self.impossible = True

    def _parse(self):
        m = self.m
        tk = tokens(self.name)
        z = self.zs
        first = tk[0]
        if first[0] not in "PSps":
            raise BadPhase(self.name)
        if z > m.cmb or (z == m.cmb and first[0] in "ps"):
            raise BadPhase("source in the core")
        up = first in "ps"
        i, n = 0, len(tk)
        add = self.pieces.append
        while i < n:
            t = tk[i]
            nxt = tk[i + 1] if i + 1 < n else "END"
            nn = tk[i + 2] if i + 2 < n else "END"
            w = t[0].upper()
            nxdep = nxt == "m" or nxt[0].isdigit() or nxt[0] == "."
            if t in ("p", "s"):
                if not up:
                    raise BadPhase(self.name)
                if i == 0 and z == 0:
                    return self._no()
                if nxt[0] == "^":
                    d = self._discon(nxt[1:])
                    if d == z:
                        raise BadPhase(self.name)
                    if d > z:
                        return self._no()
                    add(("up", w, z, d))
                    z, up = d, False
                    i += 1
                elif nxdep:
                    d = self._discon(nxt)
                    if d == z:
                        raise BadPhase(self.name)
                    if d > z:
                        return self._no()
                    if nn not in ("p", "s"):
                        raise BadPhase(self.name)
                    add(("up", w, z, d))
                    z = d
                    i += 1
                elif nxt == "END" or nxt[0] in "PS":
                    add(("up", w, z, 0.0))
                    z, up = 0.0, False
                else:
                    raise BadPhase(self.name)
            elif t in ("P", "S"):
                if up:
                    if nxt == "END" or nxt[0] in "PS":
                        add(("up", w, z, 0.0))
                        z, up = 0.0, False
                    elif nxt[0] == "^":
                        d = self._discon(nxt[1:])
                        if d >= z:
                            raise BadPhase(self.name)
                        add(("up", w, z, d))
                        z, up = d, False
                        i += 1
                    elif nxdep:
                        d = self._discon(nxt)
                        if d >= z or nn not in ("p", "s"):
                            raise BadPhase(self.name)
                        add(("up", w, z, d))
                        z = d
                        i += 1
                    else:
                        raise BadPhase(self.name)
                elif nxt == "END" or nxt in ("P", "S", "Pn", "Sn"):
                    if z >= m.cmb:
                        return self._no()
                    add(("turn", w, z, m.cmb, 0.0))
                    z = 0.0
                elif nxt[0] == "v":
                    d = self._discon(nxt[1:])
                    if d <= z:
                        raise BadPhase(self.name)
                    add(("down", w, z, d))
                    z, up = d, True
                    i += 1
                elif nxt[0] == "^":
                    d = self._discon(nxt[1:])
                    if z >= m.cmb:
                        return self._no()
                    add(("turn", w, z, m.cmb, d))
                    z = d
                    i += 1
                elif nxt == "c":
                    add(("down", w, z, m.cmb))
                    z, up = m.cmb, True
                    i += 1
                elif nxt == "K":
                    add(("down", w, z, m.cmb))
                    z = m.cmb
                elif nxdep:
                    d = self._discon(nxt)
                    if nn in ("p", "s"):
                        add(("turn", w, z, m.cmb, d))
                        z, up = d, True
                    elif nn in ("P", "S"):
                        if d <= z:
                            return self._no()
                        add(("down", w, z, d))
                        z = d
                    else:
                        raise BadPhase(self.name)
                    i += 1
                else:
                    raise BadPhase(self.name)
            elif t in ("Pg", "Sg"):
                if z >= m.moho:
                    return self._no()
                add(("turn", w, z, m.moho, 0.0))
                z = 0.0
            elif t in ("Pn", "Sn", "Pdiff", "Sdiff"):
                hn = t[1] == "n"
                zh = m.moho if hn else m.cmb
                if z >= zh or zh <= 0:
                    return self._no()
                ph = m.slow_at(w, zh, hn)
                self.head = (ph, zh, math.radians(20.0 if hn else 60.0),
                             tk.count(t))
                add(("down", w, z, zh))
                add(("arc", w, zh))
                add(("up", w, zh, 0.0))
                z = 0.0
            elif t == "K":
                if nxt in ("P", "S", "K"):
                    if up:      # from the inner core or its surface
                        add(("up", "P", m.iocb, m.cmb))
                    else:
                        add(("turn", "P", m.cmb, m.iocb, m.cmb))
                    z, up = m.cmb, nxt != "K"
                elif nxt in ("I", "J") and not up:
                    add(("down", "P", m.cmb, m.iocb))
                    z = m.iocb
                elif nxt == "i" and not up:
                    add(("down", "P", m.cmb, m.iocb))
                    z, up = m.iocb, True
                    i += 1
                else:
                    raise BadPhase(self.name)
            elif t in ("I", "J"):
                add(("turn", "P" if t == "I" else "S", m.iocb, m.R, m.iocb))
                z = m.iocb
                if nxt == "K":
                    up = True
                elif nxt not in ("I", "J"):
                    raise BadPhase(self.name)
            else:
                raise BadPhase(self.name)
            i += 1

    def _prange(self):
        lo, hi = 0.0, math.inf
        if self.impossible:
            return 1.0, 0.0
        m = self.m
        for k, pc in enumerate(self.pieces):
            w = pc[1]
            if pc[0] in ("down", "up"):
                z1, z2 = sorted(pc[2:4])
                if z1 < z2:
                    hi = min(hi, m.min_slow(w, z1, z2))
                if pc[0] == "up" and pc[2] == self.zs and k == 0 and \
                        z2 > 0:
                    hi = min(hi, m.slow_at(w, z2, False))
            elif pc[0] == "turn":
                z1, zm, z3 = pc[2:]
                if z1 == self.zs and k == 0 and z1 > 0 and z3 != z1 \
                        and m.is_discontinuity(z1):
                    # the source is on a discontinuity: it may be just above
                    hi = min(hi, max(m.slow_at(w, z1, True),
                                     m.slow_at(w, z1, False)))
                else:
                    hi = min(hi, m.slow_at(w, z1, True))
                if z3 < z1:
                    hi = min(hi, m.min_slow(w, z3, z1))
                elif z3 > z1:
                    hi = min(hi, m.min_slow(w, z1, z3),
                             m.slow_at(w, z3, True))
                lo = max(lo, m.min_slow(w, z1, zm))
        return lo, hi

    def trace(self, p, slack=0.0):
        """
        X, T of the whole phase for ray parameters p (nan: impossible).
        Ray parameters outside the possible ones by a relative slack are
        replaced by the nearest possible one (grazing rays).
        """
        p = np.atleast_1d(np.asarray(p, float)).copy()
        if self.impossible:
            return np.full_like(p, np.nan), np.full_like(p, np.nan)
        e = slack * max(self.pmax, 1.0)
        p[(p > self.pmax) & (p <= self.pmax + e)] = self.pmax
        p[(p < self.pmin) & (p >= self.pmin - e)] = self.pmin
        X, T = np.zeros_like(p), np.zeros_like(p)
        m = self.m
        out = (p > self.pmax) | (p < self.pmin)
        for n, pc in enumerate(self.pieces):
            k, w = pc[0], pc[1]
            if k in ("down", "up"):
                z1, z2 = sorted(pc[2:4])
                if z1 == z2:
                    continue
                x, t = m.seg(w, z1, z2, p)
                X, T = X + x, T + t
            elif k == "turn":
                z1, zm, z3 = pc[2:]
                if z3 <= z1:
                    x, t, zt = m.turn(w, z1, zm, p)
                    if n == 0 and z1 > 0 and z1 == self.zs:
                        # total reflection right at the source
                        tot = np.isnan(zt) & (p > m.slow_at(w, z1, True))
                        x[tot] = 0.
                        t[tot] = 0.
                    X, T = X + 2 * x, T + 2 * t
                    if z3 < z1:
                        x, t = m.seg(w, z3, z1, p)
                        X, T = X + x, T + t
                else:
                    x, t = m.seg(w, z1, z3, p)
                    x2, t2, zt = m.turn(w, z3, zm, p)
                    X, T = X + x + 2 * x2, T + t + 2 * t2
        X[out] = np.nan
        T[out] = np.nan
        return X, T

    def walk(self, p, dist=None):
        """
        The ray with ray parameter p as a list of monotone legs
        (wave, z from, z to, X0, T0, X1, T1); z from == z to for the arc of a
        head wave, whose length is such that the whole ray ends at dist.
        None if there is no such ray.
        """
        m, legs = self.m, []
        p = min(max(p, self.pmin), self.pmax)
        q = np.array([p])

        def add(w, z1, z2, x, t):
            x, t = float(x), float(t)
            if legs:
                X, T = legs[-1][5:7]
            else:
                X, T = 0., 0.
            legs.append((w, z1, z2, X, T, X + x, T + t))
            return not math.isnan(x)

        total = 0.
        if self.head is not None:
            total = float(self.trace(p)[0][0])
        for n, pc in enumerate(self.pieces):
            k, w = pc[0], pc[1]
            if k in ("down", "up"):
                z1, z2 = sorted(pc[2:4])
                if z1 == z2:
                    continue
                x, t = m.profile(w, p).seg(z1, z2)
                if not add(w, pc[2], pc[3], x, t):
                    return None
            elif k == "arc":
                x = (dist - total) / self.head[3]
                add(w, pc[2], pc[2], x, x * p)
            else:
                z1, zm, z3 = pc[2:]
                zz = z1
                if z3 > z1:
                    x, t = m.profile(w, p).seg(z1, z3)
                    if not add(w, z1, z3, x, t):
                        return None
                    zz = z3
                x, t, zt = m.turn(w, zz, zm, q)
                if n == 0 and z1 > 0 and z1 == self.zs and \
                        np.isnan(zt[0]) and p > m.slow_at(w, z1, True):
                    x, t, zt = [0.], [0.], [z1]
                if not add(w, zz, zt[0], x[0], t[0]):
                    return None
                add(w, zt[0], zz, x[0], t[0])
                if z3 < z1:
                    x, t = m.profile(w, p).seg(z3, z1)
                    if not add(w, z1, z3, x, t):
                        return None
        return legs

    def on_leg(self, leg, p, z):
        """X, T where the leg passes the depth z"""
        w, z1, z2, X0, T0, X1, T1 = leg
        if z1 == z2:
            return X0, T0
        # always measured from the shallow end, the deep one may be a
        # turning point
        up = z2 < z1
        x, t = self.m.profile(w, p).seg(z2 if up else z1, z)
        if math.isnan(x):
            return (X0, T0) if up else (X1, T1)         # a grazing ray
        return (X1 - x, T1 - t) if up else (X0 + x, T0 + t)

    def knots(self):
        """ray parameters at which X(p) can have a kink or a jump"""
        out = [q for q in self.m.critical_slownesses()
               if self.pmin < q < self.pmax]
        if self.zs > 0:
            for w in "PS":
                for below in (True, False):
                    try:
                        q = self.m.slow_at(w, self.zs, below)
                    except ZeroDivisionError:
                        continue
                    if self.pmin < q < self.pmax:
                        out.append(q)
        return sorted(set([self.pmin, self.pmax] + out))
