"""Depth correction conserves the branches."""
import random

import numpy as np

from .. import oracle, work
from ..oracle import R2D

RULE = ("case = a model and a sequence of depths: depth correction for the "
        "first one (or a split), then splits at the others; after each step "
        "the branch sums of every common ray, contiguity, tau = T - pX and "
        "the indices of the boundaries are compared, and the branches around "
        "the depths with one-way integrals through the reference model; "
        "distinct non-trivial = (model, depth, branch, wave, ray)")
NEED = {"models split": 40, "rays summed": 20000, "tau values": 60000,
        "branch rays compared": 2500, "turning rays compared": 150,
        "rays above a trap": 50, "models built": 5}
ASSUME = ["reference integrals in closed form for velocities linear in depth"]


def specs(ctx):
    return work.standard_specs(ctx, npert=ctx.pick(1, 3), lvz=True)


def names(ctx):
    return [s[0] for s in specs(ctx)]


def boundaries(spec_text):
    from ..ref import parse_tvel
    return sorted(set(r[0] for r in parse_tvel(spec_text)))


def cases(ctx):
    out = []
    ss = specs(ctx)
    for k in range(ctx.pick(120, 5000)):
        rng = ctx.rng(k)
        name, text, _ = ss[k % len(ss)]
        bb = [z for z in boundaries(text) if z < 2890]
        depths = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            r = rng.random()
            if r < 0.2:
                z = rng.choice(bb)
            elif r < 0.45:
                z = rng.choice(bb) + rng.choice([-1, 1]) * rng.choice(
                    [1e-7, 1e-5, 1e-3, 0.1, 3.])
            elif r < 0.9:
                z = work.depth(rng)
            else:
                z = rng.uniform(2900, 6300)
            depths.append(min(max(z, 0.), 6300.))
        out.append({"model": name, "depths": depths,
                    "correct": rng.random() < 0.75,
                    "seed": rng.randrange(10 ** 9)})
    return out


def arrays(m):
    """everything that a query reads of the branches, copied"""
    return {
        "p": np.array([float(p) for p in m.rayParams]),
        "z": [[(float(b.topDepth), float(b.botDepth)) for b in bb]
              for bb in m.tauBranches],
        "v": [[[np.array([float(x) for x in getattr(b, k)])
                for k in ("tau", "time", "dist")] for b in bb]
              for bb in m.tauBranches]}


def same(a, b):
    return (np.array_equal(a["p"], b["p"]) and a["z"] == b["z"] and all(
        np.array_equal(x, y) for u, v in zip(a["v"], b["v"])
        for s, t in zip(u, v) for x, y in zip(s, t)))


def sums(a, w):
    return [sum(b[k] for b in a["v"][w]) for k in range(3)]


def well_formed(m, a, R, where):
    n = len(a["p"])
    if not np.all(np.diff(a["p"]) < 0):
        R.bad("%s: the ray parameters do not decrease" % where)
        return False
    if a["z"][0] != a["z"][1]:
        R.bad("%s: P and S branches have different boundaries" % where)
        return False
    zz = a["z"][0]
    if zz[0][0] != 0 or zz[-1][1] != m.radiusOfEarth or any(
            u[1] != v[0] for u, v in zip(zz[:-1], zz[1:])) or any(
            not u < v for u, v in zz):
        R.bad("%s: the branches are not contiguous: %s" % (where, zz))
        return False
    for w in range(2):
        for i, (tau, time, dist) in enumerate(a["v"][w]):
            if not len(tau) == len(time) == len(dist) == n:
                R.bad("%s: %s branch %d has %d, %d, %d samples for %d ray "
                      "parameters" % (where, "PS"[w], i, len(tau), len(time),
                                      len(dist), n))
                return False
            R.n("tau values", n)
            d = np.abs(tau - (time - a["p"] * dist))
            R.max("tau - (T - pX) (s)", d.max(), where)
            if not d.max() <= 1e-6:
                j = int(np.argmax(d))
                R.bad("%s: %s branch %s, p=%r: tau=%r, T=%r, X=%r, so that "
                      "tau is not T-pX" % (where, "PS"[w], zz[i], a["p"][j],
                                           tau[j], time[j], dist[j]))
                return False
            # a sample may have been moved by 1e-6 km, which changes the
            # distance of a ray that turns there by the square root of it
            for what, val, tol in (("tau", tau, 1e-4), ("time", time, 5e-3),
                                   ("distance", dist, 1e-5)):
                lo = val.min()
                R.max("negative " + what, -lo, where)
                if not lo >= -tol:
                    R.bad("%s: negative %s (%g) in %s branch %s" % (
                        where, what, lo, "PS"[w], zz[i]))
                    return False
    return True


def conserved(a, b, R, where):
    """b has more branches and samples than a"""
    ia = np.searchsorted(-b["p"], -a["p"])
    ok = (ia < len(b["p"])) & (b["p"][np.minimum(ia, len(b["p"]) - 1)]
                               == a["p"])
    if not ok.all():
        R.bad("%s: ray parameter %r got lost" % (where, a["p"][~ok][0]))
        return False
    for w in range(2):
        for k, (u, v) in enumerate(zip(sums(a, w), sums(b, w))):
            R.n("rays summed", len(u))
            d = np.abs(v[ia] - u)
            R.max("change of the sum", d.max(), where)
            if not d.max() <= 1e-7:
                j = int(np.argmax(d))
                R.bad("%s: %s of the %s wave with p=%r summed over the "
                      "branches changes from %r to %r" % (
                          where, ("tau", "time", "distance")[k], "PS"[w],
                          a["p"][j], u[j], v[ia][j]))
                return False
    return True


def indices(W, m, a, name, R, where):
    ref = W.ref(name)
    tops = [z for z, _ in a["z"][0]]
    for what, want in (("moho", ref.moho), ("cmb", ref.cmb),
                       ("iocb", ref.iocb)):
        i = getattr(m, what + "Branch")
        if tops[i] != want or getattr(m, what + "Depth") != want:
            R.bad("%s: the %s is branch %d from %r km (and said to be at %r "
                  "km), but is at %r km" % (
                      where, what, i, tops[i], getattr(m, what + "Depth"),
                      want))
            return False
    if m.sourceDepth > 0 or m.sourceBranch:
        if tops[m.sourceBranch] != m.sourceDepth:
            R.bad("%s: the source at %r km is in branch %d, from %r km" % (
                where, m.sourceDepth, m.sourceBranch, tops[m.sourceBranch]))
            return False
    return True


TOL_X = 0.06       # degrees; observed: 0.013
TOL_T = 0.3         # s, of the time of one ray; observed: 0.09
TOL_TAU = 0.02      # s; observed: 0.003


def rays(W, name, a, i, w, rng, R, where, lvz):
    """one branch against the reference"""
    ref = W.ref(name)
    z1, z2 = a["z"][0][i]
    tau, time, dist = a["v"][w][i]
    wave = "PS"[w]
    if ref.min_slow("S", z1, z2) < 0:
        wave = "P"      # fluid
    n = len(a["p"])
    # least slowness above the branch and in it
    above = inside = np.inf
    edges = sorted(set([z for z in ref.zt + ref.zb if z < z2] + [z1, z2]))
    for t, b in zip(edges[:-1], edges[1:]):
        ww = "PS"[w]
        if ref.min_slow("S", t, b) < 0:
            ww = "P"
        s = ref.min_slow(ww, t, b)
        if b <= z1:
            above = min(above, s)
        else:
            inside = min(inside, s)
    top = (ref.R - z1) / ref.vel_at(wave, z1, True)
    idx = [rng.randrange(n) for _ in range(14)]
    reach = np.nonzero((a["p"] < min(above, top)) & (a["p"] > inside))[0]
    if len(reach):
        idx += [int(reach[rng.randrange(len(reach))]) for _ in range(10)]
    for j in idx:
        p = float(a["p"][j])
        # rays that barely reach or pass the branch
        if abs(p - above) < 1e-3 * p + 1e-6 or \
                abs(p - inside) < 1e-6 * p or abs(p - top) < 1e-6 * p:
            continue
        q = np.array([p])
        kind = "branch rays compared"
        if p > above:
            want = 0., 0.
            kind = "rays above a trap" if lvz else "rays that stay above"
        elif p < inside:
            x, t = ref.seg(wave, z1, z2, q)
            want = float(x[0]), float(t[0])
        elif p > top:
            want = 0., 0.       # reflected at the top of the branch
        else:
            x, t, _ = ref.turn(wave, z1, z2, q)
            want = float(x[0]), float(t[0])
            kind = "turning rays compared"
        if not (want[0] >= 0 and want[1] >= 0):
            continue
        R.n(kind)
        R.seen(name, z1, z2, w, p)
        dx = abs(dist[j] - want[0]) * R2D
        dt = abs(time[j] - want[1])
        dtau = abs(tau[j] - (want[1] - p * want[0]))
        here = "%s, %s branch %g-%g km, p=%.9g (%s)" % (
            where, "PS"[w], z1, z2, p, kind)
        R.max("X (deg), " + kind + (", lvz" if lvz else ""), dx, here)
        R.max("T (s), " + kind + (", lvz" if lvz else ""), dt, here)
        R.max("tau (s), " + kind + (", lvz" if lvz else ""), dtau, here)
        if not (dx <= TOL_X and dt <= TOL_T and dtau <= TOL_TAU):
            R.bad("%s: %.9g deg, %.9g s, tau %.9g s instead of %.9g deg, "
                  "%.9g s, %.9g s" % (
                      here, dist[j] * R2D, time[j], tau[j], want[0] * R2D,
                      want[1], want[1] - p * want[0]))
            return False
    return True


def unit(case, W, R):
    rng = random.Random(case["seed"])
    name = case["model"]
    lvz = name.startswith("lvz")
    base = W.model(name).model
    a0 = W.memo(("c14", name), lambda: arrays(base))
    m, a = base, a0
    done, case_depth = [], 0.
    for k, z in enumerate(case["depths"]):
        z0 = z
        if k == 0 and case["correct"]:
            z = oracle.snap(base, z)
            new = m.depthCorrect(z0)
            if new.sourceDepth != z:
                R.bad("%s corrected for %r km has its source at %r km" %
                      (name, z0, new.sourceDepth))
                return
        else:
            # splits are made well away from, or exactly at, the boundaries
            near = [b for zz in a["z"][0] for b in zz if abs(b - z) < 2e-6]
            if near:
                z = z0 = near[0]
            new = m.splitBranch(z0)
        done.append(z0)
        where = "%s %s %s km" % (
            name, "corrected for" if case["correct"] else "split at", done)
        R.n("models split")
        b = arrays(new)
        if not well_formed(new, b, R, where):
            return
        old = set(x for zz in a["z"][0] for x in zz)
        now = set(x for zz in b["z"][0] for x in zz)
        if now != old | {z}:
            R.bad("%s: boundaries added at %s, lost at %s" % (
                where, sorted(now - old), sorted(old - now)))
            return
        if not conserved(a, b, R, where):
            return
        if not same(arrays(m), a) or m.sourceDepth != (
                case_depth if k else 0.):
            R.bad("%s: the model that was split has changed" % where)
            return
        if not indices(W, new, b, name, R, where):
            return
        case_depth = new.sourceDepth
        m, a = new, b
        tops = [t for t, _ in b["z"][0]]
        i = tops.index(z) if z in tops else 0
        todo = {i, max(i - 1, 0), rng.randrange(len(tops)),
                rng.randrange(len(tops))}
        for i in sorted(todo):
            for w in range(2):
                if not rays(W, name, b, i, w, rng, R, where, lvz):
                    return
    if not same(arrays(base), a0):
        R.bad("%s: the surface model has changed after %s" % (name, done))
    R.sample({"model": name, "depths": done, "branches": len(a["z"][0]),
              "ray parameters": len(a["p"])})
