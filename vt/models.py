"""Earth models (tvel text) for the workloads."""
import random


def tvel(rows, title="synthetic"):
    out = ["%s - P" % title, "%s - S" % title]
    for z, vp, vs, rho in rows:
        out.append("%10.4f %10.5f %10.5f %10.4f" % (z, vp, vs, rho))
    return "\n".join(out) + "\n"


def mini():
    """a coarse Earth: crust, mantle with 410/660, fluid and solid core"""
    return [
        (0, 5.8, 3.36, 2.72), (20, 5.8, 3.36, 2.72), (20, 6.5, 3.75, 2.92),
        (35, 6.5, 3.75, 2.92), (35, 8.04, 4.47, 3.32), (410, 9.03, 4.87, 3.5),
        (410, 9.36, 5.07, 3.9), (660, 10.2, 5.6, 4.2),
        (660, 10.79, 5.95, 4.4), (1500, 12.2, 6.7, 5.0),
        (2740, 13.65, 7.25, 5.6), (2889, 13.69, 7.30, 5.7),
        (2889, 8.01, 0.0, 9.9), (4000, 9.6, 0.0, 11.5),
        (5153.9, 10.29, 0.0, 12.1), (5153.9, 11.04, 3.5, 12.7),
        (6371, 11.24, 3.56, 13.0)]


def mars():
    """smaller planet, different radius, fluid core down to the centre"""
    return [
        (0, 6.0, 3.4, 2.9), (50, 6.4, 3.7, 2.9), (50, 7.8, 4.4, 3.4),
        (500, 8.2, 4.55, 3.5), (1100, 8.9, 4.85, 3.6),
        (1100, 9.3, 5.1, 3.8), (1700, 9.9, 5.4, 4.0),
        (1700, 5.5, 0.0, 6.5), (2600, 6.3, 0.0, 7.0),
        (3389.5, 6.6, 0.0, 7.2)]


def moon():
    """small body with fluid outer and solid inner core"""
    return [
        (0, 5.0, 2.9, 2.7), (40, 5.6, 3.2, 2.8), (40, 7.6, 4.3, 3.3),
        (700, 7.9, 4.4, 3.4), (1380, 8.3, 4.6, 3.5),
        (1380, 4.1, 0.0, 5.1), (1500, 4.2, 0.0, 5.1),
        (1500, 4.8, 2.5, 8.0), (1737.1, 4.9, 2.6, 8.0)]


def homog():
    """uniform sphere: rays are straight lines"""
    return [(0, 8.0, 4.5, 3.3), (3000, 8.0, 4.5, 3.3), (6371, 8.0, 4.5, 3.3)]


def solid():
    """no discontinuity but for a core of solid material"""
    return [(0, 6.0, 3.5, 3.), (800, 9.0, 5.0, 3.), (2900, 13., 7.1, 4.),
            (2900, 13.5, 7.4, 4.), (6371, 14.0, 7.6, 5.)]


def lvz():
    """low velocity zone in the upper mantle"""
    return [
        (0, 5.8, 3.36, 2.72), (35, 6.5, 3.75, 2.92), (35, 8.1, 4.5, 3.32),
        (80, 8.1, 4.55, 3.3), (120, 7.7, 4.25, 3.3), (220, 8.3, 4.6, 3.4),
        (410, 9.03, 4.87, 3.5), (410, 9.36, 5.07, 3.9),
        (660, 10.2, 5.6, 4.2), (660, 10.79, 5.95, 4.4),
        (1500, 12.2, 6.7, 5.0), (2889, 13.69, 7.30, 5.7),
        (2889, 8.01, 0.0, 9.9), (4000, 9.6, 0.0, 11.5),
        (5153.9, 10.29, 0.0, 12.1), (5153.9, 11.04, 3.5, 12.7),
        (6371, 11.24, 3.56, 13.0)]


def lvzstep():
    """low velocity layer bounded by discontinuities"""
    r = mini()
    return r[:4] + [(35, 8.04, 4.47, 3.32), (100, 8.1, 4.5, 3.32),
                    (100, 7.8, 4.3, 3.3), (180, 7.85, 4.33, 3.3),
                    (180, 8.3, 4.6, 3.4)] + r[5:]


def perturbed(seed, rows=None, amp=0.02):
    """
    random multiplicative perturbation, the same one at the top and the bottom
    of a layer, so that no velocity inversion is created inside a layer;
    discontinuities stay discontinuities (and move)
    """
    rnd = random.Random(seed)
    rows = rows or mini()
    out, fp, fs, zz = [], 1., 1., 0.
    for i, (z, vp, vs, rho) in enumerate(rows):
        if i and rows[i - 1][0] == z:       # lower side of a discontinuity
            fp = 1 + rnd.uniform(-amp, amp)
            fs = 1 + rnd.uniform(-amp, amp)
        else:
            zz = z if i == 0 or i == len(rows) - 1 else \
                round(z * (1 + rnd.uniform(-amp, amp) / 2), 2)
        out.append((zz, round(vp * fp, 5), round(vs * fs, 5), rho))
    return out


def scaled(rows, kr=1.0, kv=1.0):
    return [(z * kr, vp * kv, vs * kv, rho) for z, vp, vs, rho in rows]


def lvzmix():
    """shallow low velocity zone for P only, a deep one for S only, and a
    third one for S only right above the core"""
    return [
        (0, 5.8, 3.36, 2.72), (35, 6.5, 3.75, 2.92), (35, 8.1, 4.5, 3.32),
        (80, 8.1, 4.55, 3.3), (120, 7.7, 4.62, 3.3), (220, 8.3, 4.7, 3.4),
        (410, 9.03, 4.87, 3.5), (410, 9.36, 5.07, 3.9),
        (660, 10.2, 5.6, 4.2), (660, 10.79, 5.95, 4.4),
        (1400, 12.1, 6.65, 5.0), (1500, 12.2, 6.1, 5.0),
        (1600, 12.35, 6.75, 5.0), (2700, 13.6, 7.25, 5.0),
        (2889, 13.69, 6.5, 5.7),
        (2889, 8.01, 0.0, 9.9), (4000, 9.6, 0.0, 11.5),
        (5153.9, 10.29, 0.0, 12.1), (5153.9, 11.04, 3.5, 12.7),
        (6371, 11.24, 3.56, 13.0)]


def lvzlid():
    """a zone below a lid that is faster than all above it, and one within
    which there are discontinuities, also one with a jump up"""
    return [
        (0, 5.8, 3.36, 2.72), (35, 6.5, 3.75, 2.92), (35, 8.04, 4.47, 3.32),
        (210, 8.4, 4.62, 3.3), (210, 8.65, 4.7, 3.4), (330, 8.3, 4.45, 3.4),
        (410, 9.03, 4.87, 3.5), (410, 9.36, 5.15, 3.9),
        (660, 10.2, 5.6, 4.2), (660, 10.79, 5.95, 4.4),
        (900, 11.3, 6.2, 4.5), (900, 10.9, 5.9, 4.5),
        (980, 11.0, 5.95, 4.5), (980, 10.8, 5.8, 4.5),
        (1050, 10.9, 5.85, 4.5), (1050, 11.05, 5.98, 4.5),
        (1120, 11.1, 6.02, 4.5), (1120, 11.6, 6.35, 4.6),
        (1500, 12.3, 6.75, 5.0), (2740, 13.65, 7.25, 5.6),
        (2889, 13.69, 7.30, 5.7),
        (2889, 8.01, 0.0, 9.9), (4000, 9.6, 0.0, 11.5),
        (5153.9, 10.29, 0.0, 12.1), (5153.9, 11.04, 3.5, 12.7),
        (6371, 11.24, 3.56, 13.0)]


def many():
    """more discontinuities, some close to each other"""
    return [
        (0, 5.6, 3.2, 2.6), (12, 5.7, 3.3, 2.6), (12, 6.2, 3.6, 2.8),
        (24.4, 6.3, 3.65, 2.8), (24.4, 6.8, 3.9, 2.9), (41, 6.9, 3.95, 2.9),
        (41, 8.0, 4.45, 3.3), (220, 8.3, 4.55, 3.4), (220, 8.5, 4.65, 3.4),
        (400, 8.95, 4.85, 3.5), (400, 9.2, 5.0, 3.7), (425, 9.3, 5.05, 3.8),
        (425, 9.45, 5.15, 3.9), (520, 9.7, 5.3, 4.0), (520, 9.8, 5.38, 4.0),
        (670.5, 10.25, 5.65, 4.2), (670.5, 10.8, 6.0, 4.4),
        (900, 11.2, 6.2, 4.5), (900, 11.4, 6.3, 4.6),
        (1700, 12.4, 6.75, 5.0), (1700, 12.5, 6.82, 5.0),
        (2630, 13.55, 7.2, 5.5), (2630, 13.72, 7.35, 5.5),
        (2891, 13.75, 7.37, 5.6), (2891, 8.01, 0., 9.9),
        (4000, 9.6, 0., 11.5), (5149.5, 10.29, 0., 12.1),
        (5149.5, 11.04, 3.5, 12.7), (6371, 11.24, 3.56, 13.)]


def random_lvz(seed):
    """mini() with one to three low velocity zones in its mantle"""
    rnd = random.Random(seed)
    rows = [(z, vp, vs, rho) for z, vp, vs, rho in mini()]
    # free stretches between the discontinuities
    spans = [(60., 380.), (440., 630.), (700., 1450.), (1550., 2700.)]
    for lo, hi in rnd.sample(spans, rnd.randint(1, 2)):
        top = round(rnd.uniform(lo, hi - 150), 1)
        th = round(rnd.uniform(40, 140), 1)
        dp = rnd.uniform(0.02, 0.08)
        ds = rnd.uniform(0.02, 0.1)
        kind = rnd.choice(["P", "S", "both", "both"])
        dp = 0. if kind == "S" else dp
        ds = 0. if kind == "P" else ds

        def at(z):
            for a, b in zip(rows[:-1], rows[1:]):
                if a[0] <= z <= b[0] and a[0] < b[0]:
                    f = (z - a[0]) / (b[0] - a[0])
                    return [a[i] + f * (b[i] - a[i]) for i in (1, 2, 3)]

        def row(z, k):
            v = at(z)
            return (z, round(v[0] * (1 - dp * k), 5),
                    round(v[1] * (1 - ds * k), 5), round(v[2], 4))
        bot, mid = round(top + th, 1), round(top + th / 2, 1)
        shape = rnd.random()
        if shape < 0.35:
            new = [row(top, 0), row(mid, 1), row(bot, 0)]
        elif shape < 0.55:
            # below a fast lid; a great jump would be coarsely sampled
            f = rnd.uniform(0.005, 0.015) / max(dp, ds)
            new = [row(top, 0), row(top, -f), row(mid, 1), row(bot, 0)]
        elif shape < 0.75:
            # with a step inside, up or down
            f = rnd.uniform(0.3, 0.9)
            new = [row(top, 0), row(top, f), row(mid, f), row(mid, 1),
                   row(bot, 1), row(bot, 0)]
            if rnd.random() < 0.5:
                new[1:5] = [row(top, 1), row(mid, 1), row(mid, f),
                            row(bot, f)]
        else:
            new = [row(top, 0), row(top, 1), row(round(top + th, 1), 1),
                   row(round(top + th, 1), 0)]
        i = max(k for k, r in enumerate(rows) if r[0] < top) + 1
        # the last layer above a zone is not divided any further when it is
        # sampled: give it samples
        new[:0] = [row(z, 0) for z in (round(top - d, 1) for d in (
            90., 72., 56., 42., 30., 20., 12., 5.)) if z > rows[i - 1][0]]
        rows[i:i] = new
    return rows
