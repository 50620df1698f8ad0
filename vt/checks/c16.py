"""Printed tables say what the arrivals say."""
import contextlib
import io
import json
import math
import random
import re

from .. import phases, work
from . import c06

RULE = ("case = requests for times, pierce points and ray paths that are "
        "printed; the text is parsed and compared line by line with the "
        "objects that the same request returns (paths also with limited time "
        "and step, pierce points also with the filters for turning, reversal, "
        "underside and added points); distinct non-trivial = printed lines "
        "compared")
NEED = {"time lines": 250, "pierce lines": 1200, "path lines": 10000,
        "filtered points": 150, "time limits": 20, "long way lines": 40,
        "renamed": 15, "models built": 3}
ASSUME = ["numbers are compared to the precision they are printed with"]
NAMES = c06.NAMES
specs = c06.specs
POOL = phases.COMMON + phases.MORE + phases.CONVERTED + phases.HEAD + \
    ["3kmps", "2.5kmps", "ttp", "tts+", "P^5000Q", "P^405P", "Pv650P",
     "P^20S", "s^30P", "SvmP", "P^405P", "p^400P"]


def cases(ctx):
    out = []
    for k in range(ctx.pick(110, 3000)):
        rng = ctx.rng(k)
        r = rng.random()
        deg = work.distance(rng)
        if r < 0.12:
            deg = rng.choice([-1, 1]) * rng.uniform(180, 760)
        out.append({
            "model": NAMES[k % 3], "deg": deg,
            "depth": rng.choice([0, 10, work.depth(rng), work.depth(rng)]),
            "phases": (["ttall"] if r > 0.85 else []) + rng.sample(
                POOL, rng.randint(2, 12)),
            "seed": rng.randrange(10 ** 9)})
    return out


def capture(f, *a):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = f(*a)
    return r, buf.getvalue().split("\n")


def close(text, value, digits):
    return abs(float(text) - value) <= 0.5000001 * 10 ** -digits + \
        1e-9 * abs(value)


def fields(where, line, want, R):
    """want = [(label, text, expected value or text, digits)]"""
    for label, text, value, digits in want:
        ok = text == value if digits is None else close(text, value, digits)
        if not ok:
            R.bad("%s: the line %r has %s %s, the arrival has %r" % (
                where, line, label, text, value))
            return False
    return True


def deg(x):
    return x * 180 / math.pi


def folded(x):
    x = deg(x) % 360
    return 360 - x if x > 180 else x


def times(m, q, R, where):
    a = m.get_travel_times(*q)
    none, lines = capture(m.get_travel_times, q[0], q[1], q[2], None, True)
    head = [i for i, x in enumerate(lines) if x and set(x) == {"-"}]
    if len(head) != 1 or not any(x.startswith("Model: %s" %
                                              m.model.sMod.vMod.modelName)
                                 for x in lines[:head[0]]):
        R.bad("%s: no table with a header is printed: %s" % (where,
                                                             lines[:5]))
        return False
    rows = [x for x in lines[head[0] + 1:] if x.strip()]
    if len(rows) != len(a):
        R.bad("%s: %d lines are printed for %d arrivals" % (where, len(rows),
                                                            len(a)))
        return False
    for line, b in zip(rows, a):
        R.n("time lines")
        R.seen(where, line)
        t = line.split()
        if len(t) != 10:
            R.bad("%s: cannot read the line %r of %s" % (where, line, b))
            return False
        if b.name != b.puristName:
            R.n("renamed")
        if deg(b.dist) % 360 > 180:
            R.n("long way lines")
        if not fields(where, line, [
                ("distance", t[0], folded(b.dist), 2),
                ("depth", t[1], float(q[0]), 1), ("name", t[2], b.name, None),
                ("time", t[3], b.time, 2),
                ("ray parameter", t[4], b.rayParam * math.pi / 180, 3),
                ("takeoff angle", t[5], b.takeoffAngle, 2),
                ("incident angle", t[6], b.incidentAngle, 2),
                ("purist distance", t[7], deg(b.dist), 2),
                ("sign", t[8], "=" if b.name == b.puristName else "*", None),
                ("purist name", t[9], b.puristName, None)], R):
            return False
        # convenience methods
        for label, got, want in (
                ("getModuloDistDeg", b.getModuloDistDeg(), folded(b.dist)),
                ("getDistDeg", b.getDistDeg(), deg(b.dist)),
                ("purist_distance", b.purist_distance, deg(b.dist)),
                ("rayParam_sec_degree", b.rayParam_sec_degree,
                 b.rayParam * math.pi / 180)):
            if not abs(got - want) <= 1e-9 * (1 + abs(want)):
                R.bad("%s: %s of %s is %r instead of %r" % (where, label, b,
                                                            got, want))
                return False
    text = str(a)
    if not text.startswith("%d arrivals" % len(a)) or any(
            "%s phase arrival at %.3f seconds" % (b.name, b.time) not in text
            for b in a):
        R.bad("%s: str() of the arrivals is %r" % (where, text[:300]))
        return False
    return True


COMMENT = re.compile(
    r"^> (\S+) at +(\S+) seconds at +(\S+) degrees for a +(\S+) km deep "
    r"source in the +(.*) model with rayParam (\S+) s/deg\.$")


def blocks(lines):
    out = []
    for x in lines:
        if x.startswith(">"):
            out.append((x, []))
        elif x.strip() and out:
            out[-1][1].append(x)
    return out


def comment(m, q, line, b, R, where):
    f = COMMENT.match(line)
    if not f:
        R.bad("%s: cannot read the line %r of %s" % (where, line, b))
        return False
    name = b.name if b.name == b.puristName else "%s(%s)" % (b.name,
                                                             b.puristName)
    return fields(where, line, [
        ("name", f.group(1), name, None), ("time", f.group(2), b.time, 2),
        ("distance", f.group(3), deg(b.dist), 2),
        ("depth", f.group(4), b.sourceDepth, 6),
        ("model", f.group(5), m.model.sMod.vMod.modelName, None),
        ("ray parameter", f.group(6), b.rayParam * math.pi / 180, 3)], R)


def pierce(m, q, R, where, rng, filt):
    from taupy.TauP_Pierce import TauP_Pierce
    pp = None
    if filt:
        pp = TauP_Pierce(m.model, q[2], q[0], q[1])
        for k in filt["only"]:
            setattr(pp, k, True)
        pp.addDepth = filt["add"]
        _, lines = capture(pp.run, True)
        a = pp.arrivals
        where += " with %s" % json.dumps(filt)
    else:
        a = m.get_pierce_points(*q)
        _, lines = capture(m.get_pierce_points, q[0], q[1], q[2], None, True)
    bl = blocks(lines)
    if len(bl) != len(a):
        R.bad("%s: pierce points of %d arrivals are printed, there are %d" % (
            where, len(bl), len(a)))
        return False
    for (line, rows), b in zip(bl, a):
        if not comment(m, q, line, b, R, where):
            return False
        pts = b.pierce
        must, may = filtered(pts, filt)
        sign = -1 if deg(b.dist) % 360 > 180 else 1
        j = 0
        printed = []
        for x in rows:
            t = x.split()
            R.n("pierce lines")
            R.seen(where, x)
            while j < len(pts) and not (len(t) == 3 and (
                    j in may) and
                    close(t[0], sign * deg(pts[j].distRadian), 2) and
                    close(t[1], pts[j].depth, 1) and
                    close(t[2], pts[j].time, 1)):
                j += 1
            if j == len(pts):
                R.bad("%s: %s: the line %r is none of the %spoints that "
                      "follow: %s" % (where, line, x, "selected " if filt
                                      else "", [
                                          (sign * deg(p.distRadian), p.depth,
                                           p.time) for i, p in enumerate(pts)
                                          if i in may][:12]))
                return False
            printed.append(j)
            j += 1
        # the same line can stand for several points only if it is printed
        # as often
        if not filt and len(rows) != len(pts) or filt and \
                len(rows) < len(must):
            R.bad("%s: %s: %d lines for %d points" % (
                where, line, len(rows), len(must if filt else pts)))
            return False
        if filt:
            R.n("filtered points", len(must))
            for i in must:
                p = pts[i]
                if not any(close(x.split()[1], p.depth, 1) and
                           close(x.split()[2], p.time, 1) for x in rows):
                    R.bad("%s: %s: the point at %r km after %r s is not "
                          "printed" % (where, line, p.depth, p.time))
                    return False
    return True


def filtered(pts, filt):
    """points that must and that may be printed"""
    n = len(pts)
    if not filt:
        return set(range(n)), set(range(n))
    must, may = set(), set()
    for i, p in enumerate(pts):
        a, b = pts[max(i - 1, 0)].depth, pts[min(i + 1, n - 1)].depth
        inner = 0 < i < n - 1
        top = inner and p.depth < a and p.depth < b
        bot = inner and p.depth > a and p.depth > b
        # the ends, and points next to others of the same depth, are a matter
        # of definition
        flat = not inner or p.depth in (a, b)
        k = filt["only"]
        if "onlyAddPoints" in k and p.depth in filt["add"]:
            must.add(i)
        if bot and ("onlyTurnPoints" in k or "onlyRevPoints" in k):
            must.add(i)
        if top and ("onlyUnderPoints" in k or "onlyRevPoints" in k):
            must.add(i)
        if i in must or flat and k != ["onlyAddPoints"]:
            may.add(i)
    return must, may


def path(m, q, R, where, rng, limit):
    from taupy.TauP_Path import TauP_Path
    inc, tmax = 1., 1e300
    if limit:
        pp = TauP_Path(m.model, q[2], q[0], q[1])
        inc = pp.maxPathInc = limit["inc"]
        if limit["time"]:
            tmax = pp.maxPathTime = limit["time"]
        _, lines = capture(pp.run, True)
        a = pp.arrivals
        where += " with %s" % json.dumps(limit)
    else:
        a = m.get_ray_paths(*q)
        _, lines = capture(m.get_ray_paths, q[0], q[1], q[2], None, True)
    bl = blocks(lines)
    if len(bl) != len(a):
        R.bad("%s: paths of %d arrivals are printed, there are %d" % (
            where, len(bl), len(a)))
        return False
    rad = m.model.radiusOfEarth
    for (line, rows), b in zip(bl, a):
        if not comment(m, q, line, b, R, where):
            return False
        sign = -1 if deg(b.dist) % 360 > 180 else 1
        pts = [(sign * deg(p.distRadian), rad - p.depth, p.time)
               for p in b.path]
        if tmax < 1e300:
            R.n("time limits")
            cut = [p for p in pts if p[2] <= tmax]
            if len(cut) < len(pts) and cut:
                u, v = cut[-1], pts[len(cut)]
                if u[2] < tmax:
                    f = (tmax - u[2]) / (v[2] - u[2])
                    cut.append(tuple(x + f * (y - x) for x, y in zip(u, v)))
            pts = cut
        got = []
        for x in rows:
            t = x.split()
            R.n("path lines")
            if len(t) != 2:
                R.bad("%s: %s: cannot read the line %r" % (where, line, x))
                return False
            got.append((float(t[0]), float(t[1])))
        R.seen(where, line, len(got))
        # the points, in order, with points in between on the straight line
        j = 0
        for i, (d, r) in enumerate(got):
            if j < len(pts) and abs(d - pts[j][0]) <= 0.00501 and \
                    abs(r - pts[j][1]) <= 0.0501:
                j += 1
                continue
            ok = False
            if 0 < j < len(pts):
                (d0, r0, _), (d1, r1, _) = pts[j - 1], pts[j]
                f = (d - d0) / (d1 - d0) if d1 != d0 else 0.5
                slope = abs((r1 - r0) / (d1 - d0)) if d1 != d0 else 0
                ok = -1e-3 - 0.0051 / abs(d1 - d0) <= f <= 1 + 1e-3 + \
                    0.0051 / abs(d1 - d0) and \
                    abs(r0 + f * (r1 - r0) - r) <= 0.0501 + 0.0051 * slope \
                    and b.rayParam != 0
            elif tmax < 1e300 and pts and j == len(pts) and \
                    abs(d - pts[-1][0]) < 0.006:
                ok = True
            if not ok:
                R.bad("%s: %s: the printed point %r (no. %d) is neither the "
                      "next point of the path (%s) nor between it and the "
                      "one before (%s)" % (where, line, rows[i], i,
                                           pts[j:j + 1],
                                           pts[max(j - 1, 0):j]))
                return False
        if j != len(pts):
            R.bad("%s: %s: only %d of %d points are printed, %r is missing" %
                  (where, line, j, len(pts), pts[j]))
            return False
        if b.rayParam != 0:
            step = max([abs(u[0] - v[0]) for u, v in zip(got[:-1], got[1:])]
                       + [0.])
            R.max("printed step / limit", (step - 0.01) / inc, where)
            if step > inc + 0.0101:
                R.bad("%s: %s: printed points are %g degrees apart" % (
                    where, line, step))
                return False
    return True


def unit(case, W, R):
    rng = random.Random(case["seed"])
    m = W.model(case["model"])
    q = (case["depth"], case["deg"], case["phases"])
    where = "%s %s" % (case["model"], json.dumps(q))
    probe = {"kind": rng.choice(["times", "pierce", "path"]), "depth": q[0],
             "deg": q[1], "phases": q[2]}
    before = c06.answer(m, probe)
    small = (q[0], q[1], rng.sample(q[2], min(6, len(q[2]))))
    filt = None
    if rng.random() < 0.6:
        filt = {"only": rng.sample(
            ["onlyTurnPoints", "onlyRevPoints", "onlyUnderPoints",
             "onlyAddPoints"], 1), "add": [
                 rng.choice([410., 660., 2889., 100., 1000., 2891.5])
                 for _ in range(2)]}
    limit = None
    if rng.random() < 0.6:
        limit = {"inc": rng.choice([0.2, 1., 5.]), "time":
                 rng.choice([0, 100., 600., rng.uniform(1, 2000)])}
    if not (times(m, q, R, where) and
            pierce(m, small, R, where, rng, None) and
            path(m, small, R, where, rng, None)):
        return
    if filt and not pierce(m, small, R, where, rng, filt):
        return
    if limit and not path(m, small, R, where, rng, limit):
        return
    R.n("requests after printing")
    if c06.answer(m, probe) != before:
        R.bad("%s: after printing, the request %s gives other arrivals" % (
            where, json.dumps(probe)))
