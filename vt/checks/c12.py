"""Invalid velocity models are never turned into tables."""
import contextlib
import copy
import io
import os
import random
import shutil

from .. import models as M

RULE = ("case = (valid model, one defect, place); the builder has to raise "
        "and may not leave a file that can be loaded; the same models "
        "without the defect, with other layouts, have to be built; distinct "
        "non-trivial = defective files")
NEED = {"defective files": 250, "valid files": 15}
ASSUME = ["a model reaches from the surface to the centre"]

ROW = ["missing", "surplus", "text", "vp zero", "vp negative", "vs > vp",
       "vp < vs", "vs to zero", "vs from zero", "vs negative", "nan", "gap",
       "backwards"]
FILE = ["no rows", "one row", "empty", "no file", "suffix", "binary",
        "directory", "no surface", "fluid surface", "depth step"]


def cases(ctx):
    out = []
    n = ctx.pick(900, 9000)
    for k in range(n):
        rng = ctx.rng(k)
        kind = rng.choice(ROW) if rng.random() < 0.8 else rng.choice(FILE)
        if k % 14 == 0:
            kind = "valid"
        out.append({"kind": kind, "seed": rng.randrange(10 ** 9),
                    "api": rng.choice(["class", "class", "function"])})
    return out


def base(rng):
    r = rng.choice([M.mini, M.lvz, M.lvzstep, M.lvzmix])()
    if rng.random() < 0.6:
        r = M.perturbed(rng.randrange(10 ** 6))
    return r


def lines(rows):
    return ["%.4f %.5f %.5f %.4f" % tuple(r) for r in rows]


def bad_token(rng, tok):
    return rng.choice([tok + "x", tok.replace(".", ","), "abc", "-", "--",
                       tok.replace(".", ". ", 1) + "_", "1..2", "0x1A", "5.8.1",
                       "1e", "?", "None"])


def spoil(rng, kind):
    """(text or bytes or None, file name, parameters)"""
    rows = [list(r) for r in base(rng)]
    n = len(rows)
    i = rng.randrange(n)
    name, par = "m.tvel", {}
    if kind in ("missing", "surplus", "text", "nan"):
        ll = lines(rows)
        c = ll[i].split()
        if kind == "missing":
            c = c[:rng.randint(1, 3)]
        elif kind == "surplus":
            c += ["%.2f" % rng.uniform(0, 9)] * rng.randint(1, 3)
        elif kind == "text":
            j = rng.randrange(4)
            c[j] = bad_token(rng, c[j]).replace(" ", "")
        else:
            c[rng.randrange(3)] = rng.choice(["nan", "NaN", "-nan"])
        ll[i] = " ".join(c)
        return "P\nS\n" + "\n".join(ll) + "\n", name, par
    solid = [k for k in range(n) if rows[k][2] > 0]
    fluid = [k for k in range(n) if rows[k][2] == 0]
    if kind == "vp zero":
        rows[i][1] = 0.
        if rng.random() < 0.5:
            rows[i][2] = 0.
    elif kind == "vp negative":
        rows[i][1] = -rng.choice([rows[i][1], 1e-3, 100.])
    elif kind == "vs > vp":
        rows[i][2] = rows[i][1] + rng.choice([1e-3, 0.1, 5.])
    elif kind == "vp < vs":
        i = rng.choice(solid)
        rows[i][1] = rows[i][2] * rng.choice([0.9999, 0.9, 0.7])
    elif kind == "vs to zero":
        if rng.random() < 0.6:
            rows[rng.choice(solid)][2] = 0.
        else:
            rows[rng.choice(fluid)][2] = rng.choice([1e-3, 0.5, 3.])
    elif kind == "vs from zero":
        # a layer with shear waves that begins without
        below = [k for k in solid if k == 0 or rows[k - 1][2] == 0 or
                 rows[k - 1][0] == rows[k][0]]
        if rng.random() < 0.7:
            rows[rng.choice(below)][2] = 0.
        else:
            k = rng.choice(fluid[1:])
            rows[k][2] = rng.choice([1e-3, 0.5, 3.])
    elif kind == "vs negative":
        rows[i][2] = -rng.choice([1e-3, 1., 4.])
    elif kind == "gap":
        # the first layer does not begin at the surface
        z = rng.choice([1e-3, 0.5, 7.])
        rows[0][0] = z
    elif kind == "backwards":
        i = rng.randrange(2, n)
        # out of order: above the row before the previous one
        up = [r[0] for r in rows[:i] if r[0] < rows[i - 1][0]]
        rows[i][0] = rng.choice(up + [max(up) - 1.] if max(up) > 1 else up)
    elif kind == "no rows":
        rows = []
    elif kind == "one row":
        rows = rows[:1]
    elif kind == "empty":
        return rng.choice(["", "\n", "P\n", "P\nS", "#\n#\n# 1 2 3 4\n"]), \
            name, par
    elif kind == "no file":
        return None, "other.tvel", par
    elif kind == "suffix":
        name = rng.choice(["m.txt", "m", "mtvel", "m.tvel.bak", "m.tvel~",
                           "m.nd", "m.csv"])
    elif kind == "binary":
        return bytes(rng.randrange(256) for _ in range(400)), name, par
    elif kind == "directory":
        name = "dir.tvel"
    elif kind == "no surface":
        k = rng.randint(2, n - 3)
        while k < n - 2 and rows[k][0] == 0:
            k += 1
        rows = rows[k:]
    elif kind == "fluid surface":
        rows = [[0, 1.5, 0, 1.], [4, 1.5, 0., 1.]] + [
            [max(r[0], 4.)] + r[1:] for r in rows]
    elif kind == "depth step":
        par = {"max_depth_interval": rng.choice([0., -1., -115.])}
    return M.tvel(rows) if kind != "backwards" else \
        "P\nS\n" + "\n".join(lines(rows)) + "\n", name, par


def build(d, name, out, par, api):
    from taupy.TauP_Create import TauP_Create
    from taupy.tau import create_taup_model
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        if api == "function" and not par and "." in name:
            create_taup_model(name, os.path.dirname(out), d)
            return os.path.join(os.path.dirname(out),
                                os.path.splitext(name)[0] + ".taup")
        c = TauP_Create(os.path.join(d, name), out, **par)
        c.loadVMod()
        c.run()
        return out


VALIDATE = ("vp zero", "vp negative", "vs to zero", "vs negative",
            "vs from zero")


def refused(path):
    """the velocity model itself refuses the file"""
    from taupy.VelocityModel import VelocityModel
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        try:
            return VelocityModel.readVelocityFile(path).validate() is False
        except Exception:
            return True


EDITS = ("layer removed", "layer twice", "empty layer", "zero p", "negative s",
         "s to zero", "radius", "moho", "cmb", "iocb", "radii")


def edited(path, rng, R):
    """a velocity model that is spoilt after it has been read"""
    from taupy.VelocityModel import VelocityModel
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        v = VelocityModel.readVelocityFile(path)
        if v.validate() is not True:
            R.bad("validate() refuses a valid velocity model: %s" % (
                sink.getvalue()[-300:]))
            return
        for kind in rng.sample(EDITS, 4):
            v = VelocityModel.readVelocityFile(path)
            n = len(v.layers)
            k = rng.randrange(1, n - 1)
            a = v.layers[rng.choice([k, 0, n - 1])]
            if kind == "layer removed":
                del v.layers[k]
            elif kind == "layer twice":
                v.layers.insert(k, copy.deepcopy(v.layers[k]))
            elif kind == "empty layer":
                b = copy.deepcopy(v.layers[k])
                b.botDepth, b.botPVelocity, b.botSVelocity = \
                    b.topDepth, b.topPVelocity, b.topSVelocity
                v.layers.insert(k, b)
            elif kind == "zero p":
                if rng.random() < 0.5:
                    a.topPVelocity = 0.
                else:
                    a.botPVelocity = 0.
            elif kind == "negative s":
                if rng.random() < 0.5:
                    a.topSVelocity = -rng.choice([1e-3, 2.])
                else:
                    a.botSVelocity = -rng.choice([1e-3, 2.])
            elif kind == "s to zero":
                a.topSVelocity = 3. if a.botSVelocity == 0 else 0.
            elif kind == "radius":
                v.radiusOfEarth = rng.choice([0., -6371.])
            elif kind == "moho":
                v.mohoDepth = rng.choice([-1e-3, v.cmbDepth + 0.1])
            elif kind == "cmb":
                v.cmbDepth = rng.choice([-1e-3, v.iocbDepth + 0.1])
            elif kind == "iocb":
                v.iocbDepth = v.cmbDepth - rng.choice([1e-3, 1000.])
            elif kind == "radii":
                v.minRadius, v.maxRadius = rng.choice([
                    (-1., v.maxRadius), (0., 0.), (0., -1.),
                    (v.maxRadius, v.maxRadius), (3000., 2999.)])
            R.n("spoilt after reading: " + kind)
            try:
                ok = v.validate()
            except Exception:
                ok = False
            if ok is not False:
                R.bad("%s: the spoilt velocity model passes validate()"
                      % kind)


def loadable(d):
    """a file in d that is loaded as a model"""
    from taupy.TauModelLoader import load
    for f in sorted(os.listdir(d)):
        try:
            m = load(os.path.join(d, f))
        except Exception:
            continue
        if hasattr(m, "tauBranches"):
            return f
    return None


def unit(case, W, R):
    from . import c11
    rng = random.Random(case["seed"])
    kind = case["kind"]
    top = os.path.join(os.path.dirname(W.src), "c12-%d" % os.getpid())
    shutil.rmtree(top, ignore_errors=True)
    d, o = os.path.join(top, "in"), os.path.join(top, "out")
    os.makedirs(d)
    os.makedirs(o)
    if kind == "valid":
        txt, name, par = c11.text(rng, base(rng)), "m.tvel", {}
    else:
        txt, name, par = spoil(rng, kind)
    path = os.path.join(d, name)
    if kind == "directory":
        os.makedirs(path)
    elif isinstance(txt, bytes):
        with open(path, "wb") as f:
            f.write(txt)
    elif txt is not None:
        with open(path, "w", newline="") as f:
            f.write(txt)
    err = None
    try:
        build(d, name, os.path.join(o, "m.pickle"), par, case["api"])
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
    got = loadable(o)
    show = txt if isinstance(txt, str) else repr(txt)[:200]
    if kind == "valid":
        R.n("valid files")
        edited(path, rng, R)
        if err or not got:
            R.bad("a valid model is not built: %s\n%s" % (err, show))
    else:
        R.n("defective files")
        R.n("defect: " + kind)
        R.seen(case["seed"])
        R.sample({"defect": kind, "refused with": err})
        if kind in VALIDATE and not refused(path):
            R.bad("%s: the velocity model passes validate():\n%s" % (
                kind, show))
        if err is None:
            R.bad("%s (%s): no error for\n%s" % (kind, name, show))
        elif got:
            R.bad("%s (%s): %s, but %s is loaded as a model\n%s" % (
                kind, name, err, got, show))
    shutil.rmtree(top, ignore_errors=True)
