"""The slowness sampling keeps its promises."""
import bisect
import math
import random

import numpy as np

from .. import models as M
from .. import match, work
from ..oracle import R2D, Curve

RULE = ("case = one wave type of a built model (Earth models with and "
        "without low velocity zones, random settings of the five limits), or "
        "one phase and setting for the accuracy; every layer, boundary and "
        "critical depth is compared with the velocity rows; distinct "
        "non-trivial = layers checked")
NEED = {"layers checked": 3000, "boundaries compared": 3000,
        "critical depths": 60, "critical rays": 60, "distance steps": 1500, "zones": 4,
        "accuracy pairs": 4, "models built": 8}
ASSUME = ["sensible settings: steps that are not larger than the structure"]


def settings(rng):
    # min_delta_p is the smallest step that the range check may divide
    return {"max_delta_p": round(math.exp(rng.uniform(math.log(4),
                                                      math.log(40))), 2),
            "max_depth_interval": round(math.exp(rng.uniform(
                math.log(20), math.log(400))), 1),
            "max_range_interval": round(rng.uniform(0.8, 6), 2),
            "max_interp_error": round(math.exp(rng.uniform(
                math.log(0.01), math.log(0.5))), 4),
            "min_delta_p": round(rng.choice([0.02, 0.1, 0.1, 0.5]), 2)}


# the models that do not depend on the seed
FIXED = ("iasp91", "ak135", "mini", "lvz", "lvzstep", "lvzmix", "mini_fine",
         "mini_rough")
FINE = {"max_delta_p": 4., "max_depth_interval": 40.,
        "max_range_interval": 1., "max_interp_error": 0.01}
ROUGH = {"max_delta_p": 25., "max_depth_interval": 300.,
         "max_range_interval": 5., "max_interp_error": 0.3}


def specs(ctx):
    out = work.standard_specs(ctx, lvz=True, npert=1)
    rng = ctx.rng("specs")
    for k in range(ctx.pick(8, 40)):
        r = rng.choice([M.mini, M.mini, M.lvz, M.lvzstep, M.lvzmix])()
        if rng.random() < 0.7 and r == M.mini():
            r = M.perturbed(rng.randrange(10 ** 6))
        if rng.random() < 0.3:
            r = M.scaled(r, rng.uniform(0.75, 1.25), 1.)
            r = [(round(z, 3), a, b, c) for z, a, b, c in r]
        out.append(("set%d" % k, M.tvel(r), settings(rng)))
    if not ctx.quick:
        for k in range(8):
            out.append(("tab%d" % k, ctx.sb.tvel_text(
                rng.choice(["iasp91", "ak135"])), settings(rng)))
    for n in ("mini", "pert0"):
        txt = M.tvel(M.mini()) if n == "mini" else M.tvel(M.perturbed(
            ctx.rng("pert", 0).randrange(10 ** 6)))
        out.append((n + "_fine", txt, FINE))
        out.append((n + "_rough", txt, ROUGH))
    return out


DEFAULT = {"max_delta_p": 11., "max_depth_interval": 115.,
           "max_range_interval": 2.5, "max_interp_error": 0.05,
           "min_delta_p": 0.1}


def cases(ctx):
    out = []
    for n, t, p in specs(ctx):
        for w in "PS":
            out.append({"what": "layers", "model": n, "wave": w,
                        "par": dict(DEFAULT, **p)})
    for n in ("mini", "pert0"):
        for ph in ("P", "S", "PcP", "ScS", "PKP", "SKS", "PKIKP", "SS"):
            rng = ctx.rng("acc", n, ph)
            out.append({"what": "accuracy", "model": n, "phase": ph,
                        "depth": rng.choice([0., round(rng.uniform(0, 600), 1)
                                             ]),
                        "deg": [round(rng.uniform(5, 175), 2)
                                for _ in range(ctx.pick(40, 200))]})
    return out


def unit(case, W, R):
    if case["what"] == "layers":
        layers(case, W, R)
    else:
        accuracy(case, W, R)


class Rows(object):
    """slowness just above and just below a depth, from the rows"""
    def __init__(self, ref, wave):
        self.ref, self.wave, self.R = ref, wave, ref.R
        self.t, self.b = [], []
        for l in ref.layers:
            v = (l[2], l[3]) if wave == "P" or l[4] == 0 else (l[4], l[5])
            self.t.append((self.R - l[0]) / v[0])
            self.b.append((self.R - l[1]) / v[1])
        self.v = [((l[2], l[3]) if wave == "P" or l[4] == 0
                   else (l[4], l[5])) for l in ref.layers]
        self.zt, self.zb = ref.zt, ref.zb

    def at(self, z, below):
        if below:
            i = bisect.bisect_right(self.zt, z) - 1
        else:
            i = bisect.bisect_left(self.zb, z)
        i = min(max(i, 0), len(self.zt) - 1)
        f = (z - self.zt[i]) / (self.zb[i] - self.zt[i])
        v = self.v[i][0] * (1 - f) + self.v[i][1] * f
        return (self.R - z) / v

    def critical(self):
        """depths where the slowness jumps or changes direction"""
        jump, turn = [], []
        for i in range(1, len(self.zt)):
            if self.b[i - 1] != self.t[i]:
                jump.append(self.zt[i])
            else:
                a = self.t[i - 1] - self.b[i - 1]
                b = self.t[i] - self.b[i]
                if a * b < 0:
                    turn.append(self.zt[i])
        return jump, turn

    def zones(self):
        """[(top, bottom, slowness)] depths that no ray from above may turn
        in: the slowness is greater than the smallest one above"""
        out, low, cur = [], self.t[0], None
        for i in range(len(self.zt)):
            t, b = self.t[i], self.b[i]
            if cur is None and t > low * (1 + 1e-12):
                cur = (self.zt[i], low)
            if cur is not None and t <= cur[1]:
                # ended by a jump
                out.append((cur[0], self.zt[i], cur[1]))
                cur = None
                low = min(low, t)
            if cur is None:
                low = min(low, t)
                if b > t * (1 + 1e-12) and t <= low:
                    cur = (self.zt[i], low)
            if cur is not None and b <= cur[1] and b < t:
                # where in the layer
                lo, hi = self.zt[i], self.zb[i]
                if b < cur[1]:
                    for _ in range(80):
                        m = 0.5 * (lo + hi)
                        if self.at_in(i, m) > cur[1]:
                            lo = m
                        else:
                            hi = m
                out.append((cur[0], hi, cur[1]))
                cur = None
            if cur is None:
                low = min(low, b)
        if cur is not None:
            out.append((cur[0], self.R, cur[1]))
        return out

    def at_in(self, i, z):
        f = (z - self.zt[i]) / (self.zb[i] - self.zt[i])
        return (self.R - z) / (self.v[i][0] * (1 - f) + self.v[i][1] * f)


def layers(case, W, R):
    model, wave, par = case["model"], case["wave"], case["par"]
    sm = W.model(model).model.sMod
    LL = sm.PLayers if wave == "P" else sm.SLayers
    rows = Rows(W.ref(model), wave)
    rad = rows.R
    where = "%s %s waves, %s" % (model, wave, par)
    zs = [x for x in rows.zt] + [rad]

    def bad(msg):
        R.bad("%s: %s" % (where, msg))
    if LL[0].topDepth != 0 or abs(LL[-1].botDepth - rad) > 0:
        return bad("the layers cover %r to %r km of %r" % (
            LL[0].topDepth, LL[-1].botDepth, rad))
    for a, b in zip(LL[:-1], LL[1:]):
        if a.botDepth != b.topDepth or a.botP != b.topP:
            return bad("layer %s does not continue with %s" % (a, b))
    over = []
    # the slowness of the rows at every boundary
    for k, l in enumerate(LL):
        R.n("layers checked")
        R.seen(model, wave, k)
        if l.botDepth < l.topDepth:
            return bad("negative thickness: %s" % l)
        if l.botDepth > l.topDepth:
            for z, p, below in ((l.topDepth, l.topP, True),
                                (l.botDepth, l.botP, False)):
                want = rows.at(z, below)
                R.n("boundaries compared")
                d = abs(p - want)
                R.max("slowness at a boundary (s/rad)", d, (model, wave, z))
                if not d <= 1e-6 + 1e-9 * want:
                    return bad("slowness %r at %r km (%s) instead of %r" % (
                        p, z, "top" if below else "bottom", want))
        else:
            a, b = rows.at(l.topDepth, False), rows.at(l.topDepth, True)
            e = 1e-6
            if not (min(a, b) - e <= min(l.topP, l.botP) and
                    max(l.topP, l.botP) <= max(a, b) + e) or (
                        a == b and l.topP != l.botP):
                return bad("layer of no thickness %s, slowness %r above and "
                           "%r below" % (l, a, b))
        st = abs(l.topP - l.botP) / par["max_delta_p"]
        # at the top of a solid below a fluid, S waves cannot come from above
        if st > 1 + 1e-9 and not (wave == "S" and l.topDepth == l.botDepth and
                                  W.ref(model).vel_at("S", l.topDepth, False)
                                  == 0):
            over.append((st, l))
        R.max("depth step / limit", (l.botDepth - l.topDepth) /
              par["max_depth_interval"], (model, wave, k))
        if l.botDepth - l.topDepth > par["max_depth_interval"] * (1 + 1e-6):
            return bad("depth step of %r km: %s" % (
                l.botDepth - l.topDepth, l))
    if model in FIXED:
        R.n("slowness steps compared", len(LL))
        if over:
            st, l = max(over, key=lambda x: x[0])
            R.bad("%s: %d layers with slowness steps greater than the limit, "
                  "the largest %.3f times: %s" % (where, len(over), st, l),
                  "step:%s:%s:%d:%.3f" % (model, wave, len(over), st))
    bnd = set(l.topDepth for l in LL) | set([rad])
    other = Rows(W.ref(model), "S" if wave == "P" else "P")
    crit = set([0., rad])
    for r in (rows, other):
        j, t = r.critical()
        crit |= set(j) | set(t)
    have = [c.depth for c in sm.criticalDepths]
    R.n("critical depths", len(have))
    for z in crit:
        if z not in bnd:
            return bad("critical depth %r is not a layer boundary" % z)
        if z not in have:
            return bad("critical depth %r is not in %s" % (z, have))
    if have != sorted(have):
        return bad("critical depths %s are not sorted" % have)
    for c in sm.criticalDepths:
        n = c.pLayerNum if wave == "P" else c.sLayerNum
        z = LL[n].topDepth if n < len(LL) else rad
        if z != c.depth or (0 < n < len(LL) and
                            LL[n].botDepth == c.depth):
            return bad("critical depth %r is at layer %d, which begins at %r"
                       % (c.depth, n, z))
    for z in have:
        if z not in bnd:
            return bad("critical depth %r is not a layer boundary" % z)
    # the rays that graze a discontinuity are ray parameters of the model
    rp = W.model(model).model.rayParams
    ray = sorted(float(x) for x in rp)
    if any(not u > v for u, v in zip(rp[:-1], rp[1:])) or rp[-1] != 0:
        return bad("the ray parameters do not decrease to zero: %s" % rp)
    ref = W.ref(model)
    for z in sorted(crit):
        if not 0 < z <= ref.cmb:
            continue
        lim = ref.min_slow(wave, 0., z)
        for below in (False, True):
            if wave == "S" and z == ref.cmb and below:
                continue
            p = rows.at(z, below)
            if p > lim + 1e-9:
                continue        # no ray from above
            R.n("critical rays")
            j = bisect.bisect_left(ray, p - 1e-6)
            if j >= len(ray) or abs(ray[j] - p) > 1e-6:
                return bad("the slowness %r at the critical depth %r km (%s) "
                           "is not among the ray parameters: %s" % (
                               p, z, "below" if below else "above",
                               ray[max(j - 1, 0):j + 2]))
    # zones
    got = sm.highSlownessLayerDepthsP if wave == "P" else \
        sm.highSlownessLayerDepthsS
    want = rows.zones()
    R.n("zones", len(want))
    if len(got) != len(want) or any(
            abs(g.topDepth - w[0]) > 1e-6 or abs(g.botDepth - w[1]) > 1e-4 or
            abs(g.rayParam - w[2]) > 1e-6 for g, w in zip(got, want)):
        return bad("high slowness zones %s instead of %s" % (
            [(g.topDepth, g.botDepth, g.rayParam) for g in got], want))
    if len(want):
        for g in got:
            for z in (g.topDepth, g.botDepth):
                if z not in bnd:
                    return bad("zone %r is not bounded by layers" % z)
    fl = [(l[0], l[1]) for l in W.ref(model).layers if l[4] == 0]
    ff = []
    for a, b in fl:
        if ff and ff[-1][1] == a:
            ff[-1] = (ff[-1][0], b)
        else:
            ff.append((a, b))
    if [(f.topDepth, f.botDepth) for f in sm.fluidLayerDepths] != ff:
        return bad("fluid layers %s instead of %s" % (
            [(f.topDepth, f.botDepth) for f in sm.fluidLayerDepths], ff))
    steps(case, R, LL, rows, want, par, where)


def bullen(LL, rad, p, upto):
    """two-way distance and time of rays p (array) through LL[:upto[i]]"""
    X, T = np.zeros(len(p)), np.zeros(len(p))
    for k, l in enumerate(LL):
        use = upto > k
        if not use.any() or l.botDepth - l.topDepth < 1e-9:
            continue
        q = p[use]
        if l.botDepth >= rad:
            # centre: constant slowness per radius
            v = (rad - l.topDepth) / l.topP
            r = rad - l.topDepth
            s = np.sqrt(np.maximum(r * r - (q * v) ** 2, 0))
            X[use] += 2 * np.arctan2(s, q * v)
            T[use] += 2 * s / v
            continue
        a = np.sqrt(np.maximum(l.topP ** 2 - q * q, 0))
        b = np.sqrt(np.maximum(l.botP ** 2 - q * q, 0))
        lr = math.log((rad - l.topDepth) / (rad - l.botDepth))
        B = math.log(l.topP / l.botP) / lr
        if abs(B) < 1e-9:
            X[use] += 2 * q / np.maximum(a, 1e-9) * lr
            T[use] += 2 * l.topP ** 2 / np.maximum(a, 1e-9) * lr
        else:
            X[use] += 2 * (np.arctan2(q, b) - np.arctan2(q, a)) / B
            T[use] += 2 * (a - b) / B
    return X, T


def steps(case, R, LL, rows, zones, par, where):
    """distance steps and the error of interpolation between samples"""
    n = len(LL)

    def zone(z, p):
        return any(t <= z <= b and (p > q + 1e-9 or
                                    abs(p - q) <= 1e-9 and z == t)
                   for t, b, q in zones)
    idx = [k for k in range(n) if not zone(LL[k].topDepth, LL[k].topP) and
           not zone(LL[k].botDepth, LL[k].botP) and LL[k].botP < LL[k].topP
           and LL[k].botDepth < rows.R]
    if not idx:
        return
    top = np.array([LL[k].topP for k in idx])
    bot = np.array([LL[k].botP for k in idx])
    up = np.array(idx)
    X1, T1 = bullen(LL, rows.R, top, up)
    X2, T2 = bullen(LL, rows.R, bot, up + 1)
    mid = 0.5 * (top + bot)
    Xm, Tm = bullen(LL, rows.R, mid, up)
    for i, k in enumerate(idx):
        l = LL[k]
        # the layer right above a zone is not limited: its lowest ray grazes
        # the zone (parts of it appear when the other wave type is sampled)
        if any(t - par["max_depth_interval"] - 1e-6 <= l.topDepth and
               l.botDepth <= t for t, b, q in zones):
            R.n("layers above a zone, not limited")
            continue
        R.n("distance steps")
        dx = abs(X1[i] - X2[i]) * R2D
        if abs(top[i] - bot[i]) > 2 * par["min_delta_p"]:
            R.max("distance step / limit", dx / par["max_range_interval"],
                  (case["model"], case["wave"], k))
            if dx > 2. * par["max_range_interval"]:
                R.bad("%s: distance step of %.2f deg: %s" % (where, dx, l))
                return
        # the part of the layer above the turning point of the ray mid
        if l.botDepth - l.topDepth > 1e-9:
            lr = math.log((rows.R - l.topDepth) / (rows.R - l.botDepth))
            B = math.log(l.topP / l.botP) / lr
            a = math.sqrt(l.topP ** 2 - mid[i] ** 2)
            xm = Xm[i] + 2 * (math.pi / 2 - math.atan2(mid[i], a)) / B
            tm = Tm[i] + 2 * a / B
        else:
            xm, tm = Xm[i], Tm[i]
        if X1[i] != X2[i] and min(X1[i], X2[i]) <= xm <= max(X1[i], X2[i]):
            f = (xm - X1[i]) / (X2[i] - X1[i])
            err = abs(T1[i] + f * (T2[i] - T1[i]) - tm)
            R.n("interpolation errors")
            R.max("interpolation error / limit",
                  err / par["max_interp_error"],
                  (case["model"], case["wave"], k, dx))
            if err > 1.5 * par["max_interp_error"]:
                R.bad("%s: interpolation error of %.3f s: %s" % (
                    where, err, l))
                return


def accuracy(case, W, R):
    ref = W.ref(case["model"])
    name, z = case["phase"], case["depth"]
    cur = Curve(ref, name, z)
    res = {}
    for s in ("_fine", "", "_rough"):
        m = W.model(case["model"] + s)
        zs = match.effective_depth(W, case["model"] + s, z)
        err = []
        for deg in case["deg"]:
            arr = m.get_travel_times(z, deg, [name])
            for x in cur.targets(deg):
                for p, T, run in cur.rays(x):
                    if min(x - run.lo, run.hi - x) < 3. / R2D:
                        continue
                    d = [abs(a.time - T) for a in arr
                         if abs(a.dist - x) < 1e-7]
                    err.append(min(d) if d else 99.)
        res[s] = np.array(err)
    if not len(res[""]):
        return
    f, d, r = [float(np.mean(res[s])) for s in ("_fine", "", "_rough")]
    R.n("accuracy pairs")
    R.sample({"model": case["model"], "phase": name, "depth": z,
              "mean error (s) fine, default, rough": [f, d, r]})
    for s, v in (("fine", f), ("default", d), ("rough", r)):
        R.max("mean error, %s settings (s)" % s, v, (case["model"], name, z))
    if not f <= max(1.5 * r, 0.02):
        R.bad("%s, depth %r km, %s: mean error %.4f s with fine settings, "
              "%.4f s with rough ones" % (case["model"], z, name, f, r))
    if not d <= 0.1 or not f <= 0.05:
        R.bad("%s, depth %r km, %s: mean error %.4f s with default settings, "
              "%.4f s with fine ones" % (case["model"], z, name, d, f))
    R.data.append((case["model"], name, z, f, d, r))



def finish(ctx, agg):
    out = []
    tot = np.array([d[3:] for d in agg["data"]])
    if len(tot):
        f, d, r = tot.mean(axis=0)
        agg.setdefault("samples", []).append(
            {"mean error (s) of fine, default, rough settings": [f, d, r]})
        if not f < d < r:
            out.append("finer settings do not give more accurate times: mean "
                       "error %.4f s fine, %.4f s default, %.4f s rough" % (
                           f, d, r))
    return out
