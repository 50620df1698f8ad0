"""Phase lists mean the union of their phases."""
import random

from .. import phases, work
from . import c01
from .c05 import sig

RULE = ("case = (Earth model, source depth, distance, list of names and "
        "keywords); the answer is compared bit by bit with the union of the "
        "answers for the single names, for shuffled lists, with duplicates, "
        "unknown and impossible names, for keywords in any case and for "
        "empty lists; distinct non-trivial = lists with arrivals")
NEED = {"lists compared": 80, "keywords compared": 15,
        "names without arrivals": 60, "empty lists": 4, "models built": 3}
ASSUME = ["the documented meaning of the keywords is that of the TauP "
          "manual"]
NAMES = ["iasp91", "mini", "lvzstep"]


def specs(ctx):
    from .. import models as M
    return [("iasp91", ctx.sb.tvel_text("iasp91"), {}),
            ("mini", M.tvel(M.mini()), {}),
            ("lvzstep", M.tvel(M.lvzstep()), {})]


UNKNOWN = ["X", "Px", "", "Pc", "PK", "PKI", "Q^410", "P^", "Pv", "diff",
           "kmps", "xkmps", "-3kmps", "0kmps", "infkmps", "P^.P", "P 410",
           "Pdif", "p410", "^410P", "410P", "PpP", "Ps", "PKK", "IP", "K",
           "P^1.2.3P", "ttq", "tt", "PKPK", "vP", "J", "PJ", "SnX", "nankmps"]


def anycase(rng, s):
    return "".join(rng.choice([c.lower(), c.upper()]) for c in s)


def cases(ctx):
    out = []
    for k in range(ctx.pick(110, 1500)):
        rng = ctx.rng(k)
        pool = phases.COMMON + phases.MORE + phases.CONVERTED + phases.HEAD
        names = rng.sample(pool, rng.randint(1, 9))
        if rng.random() < 0.6:
            names += rng.sample(UNKNOWN, rng.randint(1, 4))
        if rng.random() < 0.3:
            names += [phases.random_name(rng)]
        if rng.random() < 0.2:
            names += ["%.1fkmps" % rng.uniform(1, 8)]
        if rng.random() < 0.5:
            names += rng.sample(names, rng.randint(1, len(names)))
        kw = None
        if k % 3 == 0:
            kw = rng.choice(sorted(phases.KEYWORDS))
        rng.shuffle(names)
        out.append({"model": NAMES[k % 3], "depth": work.depth(rng, ctx.pick(750., 2800.)),
                    "deg": work.distance(rng), "phases": names,
                    "keyword": kw, "how": anycase(rng, kw) if kw else None,
                    "api": rng.choice(["times", "times", "pierce", "path"]),
                    "empty": k % 6 == 0, "seed": rng.randrange(10 ** 9)})
    return out


def unit(case, W, R):
    rng = random.Random(case["seed"])
    m = W.model(case["model"])
    z, deg = case["depth"], case["deg"]
    get = {"times": m.get_travel_times, "pierce": m.get_pierce_points,
           "path": m.get_ray_paths}[case["api"]]
    where = "%s, depth %r km, %r deg" % (case["model"], z, deg)
    single = {}

    def one(name):
        if name not in single:
            single[name] = [sig(a) for a in m.get_travel_times(z, deg, [name])]
            if any(s[0] != name for s in single[name]):
                R.bad("%s: arrivals %s for %r" % (
                    where, sorted(set(s[0] for s in single[name])), name))
            if not single[name]:
                R.n("names without arrivals")
        return single[name]

    def union(names):
        return sorted(s for n in sorted(set(names)) for s in one(n))

    def check(lst, names, what):
        got = get(z, deg, lst)
        if [a.time for a in got] != sorted(a.time for a in got):
            R.bad("%s: phases %s: not sorted by time" % (where, lst))
        g, w = sorted(sig(a) for a in got), union(names)
        R.n(what)
        if g != w:
            R.bad("%s: %s: phases %s give %d arrivals, the single phases %d; "
                  "only in the list: %s; only single: %s" % (
                      where, case["api"], lst, len(g), len(w),
                      [s[:3] for s in g if s not in w][:4],
                      [s[:3] for s in w if s not in g][:4]))
            return False
        if g:
            R.seen(case["model"], z, deg, tuple(lst or ()))
        return True

    names = case["phases"]
    if not check(names, names, "lists compared"):
        return
    other = list(names)
    rng.shuffle(other)
    if not check(other[::-1], names, "lists compared"):
        return
    if not check(tuple(set(names)), names, "lists compared"):
        return
    if case["keyword"]:
        kw = phases.KEYWORDS[case["keyword"]]
        if not check([case["how"]], kw, "keywords compared"):
            return
        mixed = [names[0], case["how"], names[-1]]
        if not check(mixed, kw + [names[0], names[-1]], "keywords compared"):
            return
    if case["empty"]:
        R.n("empty lists")
        a = sorted(sig(x) for x in m.get_travel_times(z, deg, []))
        b = sorted(sig(x) for x in m.get_travel_times(z, deg))
        if not a == b == union(phases.KEYWORDS["ttall"]):
            R.bad("%s: an empty list gives %d, no list %d, ttall %d arrivals"
                  % (where, len(a), len(b), len(union(
                      phases.KEYWORDS["ttall"]))))
