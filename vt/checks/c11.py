"""Velocity models are read as written."""
import bisect
import math
import os
import random

RULE = ("case = (random layering, file layout); velocities and density just "
        "above and just below each row depth, at random depths and next to "
        "rows, the radius, the discontinuities and the three major "
        "boundaries against an independent reader of the rows; distinct "
        "non-trivial = (layering, layout) with a discontinuity")
NEED = {"files read": 300, "values compared": 30000,
        "discontinuities compared": 800, "layouts compared": 200,
        "major boundaries compared": 300}
ASSUME = ["the two first lines are headers, '#' starts a comment"]


def cases(ctx):
    return [{"seed": ctx.rng(k).randrange(10 ** 9), "n": 12}
            for k in range(ctx.pick(1500, 40000))]


def layering(rng):
    """[(depth, vp, vs, rho)]: values as they will be written"""
    style = rng.random()
    R = rng.choice([6371., 6371., 6371., round(rng.uniform(1000, 9000), 1)])
    if style < 0.15:
        dep = [0.]
        while dep[-1] < R:
            dep.append(round(dep[-1] + rng.uniform(1, 2 * R / 5), 3))
        dep[-1] = R
    else:
        n = rng.randint(2, 40)
        dep = sorted(set([0., R] + [round(rng.uniform(0.01, R - 0.01),
                                          rng.choice([0, 1, 2, 4]))
                                    for _ in range(n)]))
        for d in (35., 2889., 5153.9):
            if rng.random() < 0.6:
                d = d + rng.choice([0, 0, rng.uniform(-70, 70)])
                d = round(d, 2)
                if 0 < d < R and d not in dep:
                    dep.append(d)
        dep = sorted(dep)
    rows = []
    v = [rng.uniform(2, 9), 0., rng.uniform(2, 5)]
    v[1] = v[0] * rng.uniform(0.3, 0.7)
    fluid = False
    dg = rng.choice([1, 2, 3, 5, 8])

    def put(z):
        s = 0. if fluid else min(v[1], v[0])
        row = (z, round(v[0], dg), round(s, dg), round(v[2], dg))
        if row[2] > row[1]:
            row = (z, row[1], row[1], row[3])
        if not rows or rows[-1] != row:
            rows.append(row)
    for i, z in enumerate(dep):
        if i:
            v = [max(1., x * rng.uniform(0.98, 1.1)) for x in v]
            if rng.random() < 0.15:
                v = [rows[-1][1], rows[-1][2] or v[1], rows[-1][3]]
        put(z)
        if 0 < i < len(dep) - 1 and rng.random() < 0.5:
            # a discontinuity, perhaps of one property only
            r = rng.random()
            k = [0, 1, 2] if r < 0.5 else [rng.randrange(3)]
            for j in k:
                v[j] *= rng.uniform(0.7, 1.3)
            v[1] = min(v[1], 0.95 * v[0])
            if rng.random() < 0.2:
                fluid = not fluid
            put(z)
            if rng.random() < 0.04:
                # a step in between: a layer of no thickness
                v[0] *= 1.05
                put(z)
    return rows


def num(rng, x, plain):
    x = float(x)
    if plain:
        return repr(x)
    r = rng.random()
    if r < 0.2:
        return "%.17g" % x
    if r < 0.35:
        return "%.17e" % x
    if r < 0.45:
        return "+" + repr(x)
    if r < 0.55:
        return repr(x) + "000" if "e" not in repr(x) else repr(x)
    if r < 0.65:
        return ("%.17E" % x)
    if r < 0.75 and x == int(x):
        return "%d" % x
    if r < 0.85:
        return "0" + repr(x)
    return repr(x)


def text(rng, rows, plain=False):
    """rows laid out in a file"""
    if plain:
        return "P\nS\n" + "".join(" ".join(repr(x) for x in r) + "\n"
                                  for r in rows)
    head = ["", "# x", "iasp91 P", "0 5.8 3.36 2.72", "  7  ", "#", "0 0 0 0"]
    out = [rng.choice(head), rng.choice(head)]
    com = ["# a comment", "#", "#0 1 2 3", "   # 35 8 4 3", "\t#x"]
    for r in rows:
        while rng.random() < 0.1:
            out.append(rng.choice(["", "   ", "\t"] + com))
        sep = rng.choice([" ", "  ", "\t", " \t ", "      "])
        line = rng.choice(["", " ", "\t", "     "]) + sep.join(
            num(rng, x, False) for x in r)
        if rng.random() < 0.25:
            line += rng.choice(["#", " # moho", "\t# 1 2 3 4", "   ", "#9 9"])
        out.append(line)
    while rng.random() < 0.3:
        out.append(rng.choice(["", "  "] + com))
    end = rng.choice(["\n", "\n", "\n", "\r\n"])
    return end.join(out) + rng.choice([end, ""])


def value(rows, z, j, below):
    """column j at depth z, on that side: straight from the rows"""
    d = [r[0] for r in rows]
    if below:
        i = bisect.bisect_right(d, z) - 1       # the last row at or above z
    else:
        i = bisect.bisect_left(d, z) - 1        # the last row above z
    a, b = rows[i], rows[i + 1]
    if z == a[0]:
        return a[j]
    if z == b[0]:
        return b[j]
    f = (z - a[0]) / (b[0] - a[0])
    return a[j] * (1 - f) + b[j] * f


def discons(rows):
    """depths with more than one value of a velocity"""
    out = []
    for z in sorted(set(r[0] for r in rows))[1:-1]:
        rr = [r for r in rows if r[0] == z]
        if rr[0][1] != rr[-1][1] or rr[0][2] != rr[-1][2]:
            out.append((z, rr[0], rr[-1]))
    return out


def major(rows):
    R = rows[-1][0]
    dd = discons(rows)

    def best(c, at):
        m = min([abs(z - at) for z in c], default=None)
        return set(z for z in c if abs(z - at) == m)
    moho = best([z for z, a, b in dd if abs(z - 35.) < 65.], 35.) or {0.}
    cmb = best([z for z, a, b in dd if abs(z - 2889.) < R], 2889.) or {R}
    iocb = best([z for z, a, b in dd if a[2] == 0 and b[2] > 0 and
                 abs(z - 5153.9) < R - 100.], 5153.9) or {R}
    if iocb & cmb:
        iocb = iocb | {R}
    return moho, cmb, iocb


def unit(case, W, R):
    from taupy.VelocityModel import VelocityModel
    rng = random.Random(case["seed"])
    d = os.path.join(os.path.dirname(W.src), "files-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    for n in range(case["n"]):
        rows = layering(rng)
        key = (case["seed"], n)
        where = "seed %s file %d" % key
        name = rng.choice(["a", "m.x", "b c", "prem.v2.1", ".m", "x.tvel",
                           "ak-135_F", "é"])
        path = os.path.join(d, name + ".tvel")

        def read(txt):
            with open(path, "w", newline="") as f:
                f.write(txt)
            R.n("files read")
            return VelocityModel.readVelocityFile(path)
        txt = text(rng, rows)
        m = read(txt)
        if m.modelName != name:
            R.bad("%s: the model of the file %s.tvel is called %r" % (
                where, name, m.modelName))
        if not compare(m, rows, rng, R, where + "\n" + txt[:400]):
            return
        if rng.random() < 0.6:
            a, b = read(text(rng, rows, True)), m
            R.n("layouts compared")
            if [vars(x) for x in a.layers] != [vars(x) for x in b.layers] or \
                    str(a) != str(b):
                R.bad("%s: the layout changes the model:\n%s" % (where,
                                                                txt[:600]))
        if discons(rows):
            R.seen(key)
        R.sample({"file": txt[:300], "moho": m.mohoDepth, "cmb": m.cmbDepth,
                  "iocb": m.iocbDepth})


def compare(m, rows, rng, R, where):
    rad = rows[-1][0]
    if m.radiusOfEarth != rad or m.maxRadius != rad or m.minRadius != 0:
        R.bad("%s: radius %r, %r, %r instead of %r" % (
            where, m.radiusOfEarth, m.minRadius, m.maxRadius, rad))
        return False
    dep = sorted(set(r[0] for r in rows))
    zz = [(z, s) for z in dep for s in (0, 1)]
    for _ in range(25):
        z = rng.uniform(0, rad)
        zz += [(z, 0), (z, 1)]
    for _ in range(10):
        z = rng.choice(dep)
        for e in (-1e-9, 1e-9, -1e-3, 1e-3):
            zz += [(z + e, rng.randrange(2))]
    for z, below in zz:
        if (z <= 0 and not below) or (z >= rad and below) or z < 0 or z > rad:
            continue
        for j, props in ((1, "pP"), (2, "sS"), (3, "dDrR")):
            f = m.evaluateBelow if below else m.evaluateAbove
            got = f(z, rng.choice(props))
            want = value(rows, z, j, below)
            R.n("values compared")
            # rounding next to a row: relative to the values of the layer
            if not abs(got - want) <= 1e-10 * max(1., abs(want)) + (
                    0 if z in dep else 1e-11 * rad / min(
                        [b - a for a, b in zip(dep[:-1], dep[1:])])):
                R.bad("%s: column %d %s %r km is %r instead of %r" % (
                    where, j, "below" if below else "above", z, got, want))
                return False
            if want == 0. and got != 0. and z in dep:
                R.bad("%s: S velocity %r in a fluid at %r km" % (
                    where, got, z))
                return False
    want = [0.] + [z for z, a, b in discons(rows)] + [rad]
    got = m.getDisconDepths()
    R.n("discontinuities compared", len(want))
    if [float(x) for x in got] != want:
        R.bad("%s: discontinuities %s instead of %s" % (where, got, want))
        return False
    moho, cmb, iocb = major(rows)
    R.n("major boundaries compared", 1)
    if m.mohoDepth not in moho or m.cmbDepth not in cmb or \
            m.iocbDepth not in iocb:
        R.bad("%s: Moho %r, CMB %r, inner core %r instead of %s, %s, %s; "
              "discontinuities %s" % (where, m.mohoDepth, m.cmbDepth,
                                      m.iocbDepth, moho, cmb, iocb, want))
        return False
    return True
