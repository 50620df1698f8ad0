"""
Runner shared by all checks.

A check module (vt.checks.cNN) provides

    RULE      how cases are made and what makes one non-trivial
    NEED      {event: least number that must have been observed}
    ASSUME    list of assumptions (optional)
    specs(ctx)        -> [(model name, tvel text, parameters)]   (optional)
    cases(ctx)        -> list of JSON-able cases
    unit(case, W, R)  runs one case in a worker process; the monitors report
                      to R: R.n(event), R.seen(key), R.bad(message)
    finish(ctx, agg)  -> extra violations over all cases         (optional)

Exit status: 0 nothing violated, 1 a violation, 3 inconclusive (the monitors
did not observe what they have to observe, or the machinery itself failed).
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

from . import build

VERIF = build.VERIF
CPU_LIMIT = 150.        # of one case; the slowest ones take a few seconds
MAX_BAD = 6


class Hang(BaseException):
    pass


class Result(object):
    """what the monitors saw in one case"""
    def __init__(self, case):
        self.case = case
        self.events = collections.Counter()
        self.keys = set()
        self.violations = []
        self.samples = []
        self.maxima = {}
        self.data = []

    def n(self, event, k=1):
        self.events[event] += k

    def seen(self, *key):
        """a distinct non-trivial evaluation"""
        self.keys.add(hash_key(key))

    def bad(self, msg, key=None):
        if len(self.violations) < 25:
            self.violations.append((str(msg), key))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def max(self, name, value, what=None):
        """largest observed deviation, kept for the evidence"""
        value = float(value)
        if not value <= self.maxima.get(name, (-1.,))[0]:
            self.maxima[name] = (value, what)


def hash_key(key):
    return hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()


class Worker(object):
    """environment of a worker process: the package under test, its models"""
    def __init__(self, src, info, tier):
        self.src, self.info, self.tier = src, info, tier
        self._m, self._r, self._memo = {}, {}, {}

    def path(self, name):
        return self.info[name]["path"]

    def model(self, name):
        """the TauPyModel, loaded once per worker"""
        if name not in self._m:
            self._m[name] = self.fresh(name)
        return self._m[name]

    def fresh(self, name):
        from taupy.tau import TauPyModel
        return TauPyModel(self.path(name))

    def text(self, name):
        return self.info[name]["text"]

    def ref(self, name):
        if name not in self._r:
            from .ref import RefModel, parse_tvel
            self._r[name] = RefModel(parse_tvel(self.text(name)))
        return self._r[name]

    def memo(self, key, fn, size=400):
        if key not in self._memo:
            if len(self._memo) > size:
                self._memo.clear()
            self._memo[key] = fn()
        return self._memo[key]


_W = None
_MOD = None


def _init(src, info, tier, modname, logdir):
    global _W, _MOD
    warnings.simplefilter("ignore")
    sys.path.insert(0, src)
    log = os.open(os.path.join(logdir, "log-%d" % os.getpid()),
                  os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(log, 1)
    os.dup2(log, 2)
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(3000)
    _W = Worker(src, info, tier)
    _MOD = importlib.import_module(modname)
    signal.signal(signal.SIGPROF, _hang)


def _hang(*_):
    raise Hang()


def _run(case):
    R = Result(case)
    t0 = time.time()
    fail = None
    try:
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        try:
            _MOD.unit(case, _W, R)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang:
        R.bad("no result within %g s of CPU time" % CPU_LIMIT, "hang")
    except Exception as e:
        tb = e.__traceback__
        frames = traceback.extract_tb(tb)
        here = os.path.dirname(os.path.abspath(__file__))
        # an exception out of the code under test violates the property
        # (monitors catch those they allow); one of the machinery does not
        last = [f.filename for f in frames]
        if any(f.startswith(_W.src) for f in last):
            where = [f for f in frames if f.filename.startswith(_W.src)][-1]
            R.bad("%s: %s (raised in %s of %s)" % (
                type(e).__name__, e, where.name,
                os.path.basename(where.filename)), "exception")
        else:
            fail = traceback.format_exc()
            if not any(f.startswith(here) for f in last):
                fail = "outside: " + fail
    return (case, R.events, R.keys, R.violations, R.samples, R.maxima, R.data,
            fail, time.time() - t0)


class Ctx(object):
    def __init__(self, cid, seed, tier):
        self.id, self.seed, self.tier = cid, seed, tier
        self.quick = tier != "thorough"
        self.sb = None

    def rng(self, *what):
        return random.Random("%s/%s/%s" % (self.id, self.seed,
                                           "/".join(map(str, what))))

    def pick(self, quick, thorough):
        return quick if self.quick else thorough


def known_findings():
    """[(property, key)] of the findings recorded, not repaired"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                out.append((f["property"], f["key"],
                            line.split(None, 3)[3].strip()))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    cid = a.check.upper()
    modname = "vt.checks." + cid.lower()
    mod = importlib.import_module(modname)
    tier = "thorough" if a.tier == "thorough" else "quick"
    ctx = Ctx(cid, a.seed, tier)
    t0 = time.time()
    budget = ctx.pick(300, 660)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    sb = ctx.sb = build.Sandbox()
    violations, fails, known = [], [], []
    kn = [(k, t) for p, k, t in known_findings() if p == cid]
    events, keys, samples, maxima, data = (collections.Counter(), set(), [],
                                           {}, [])
    ncase, slow = 0, []

    def take(case, viol):
        for msg, key in viol:
            hit = [t for k, t in kn if key is not None and k == key]
            if hit:
                known.append((key, hit[0]))
            else:
                violations.append({"case": case, "message": msg})

    rc = 3
    try:
        sys.dont_write_bytecode = True
        if a.replay:
            rep = json.load(open(a.replay))
            ctx.seed, ctx.tier = rep.get("seed", ctx.seed), rep["tier"]
            ctx.quick = ctx.tier != "thorough"
            cases = [rep["case"]]
        else:
            cases = mod.cases(ctx)
        specs = list(mod.specs(ctx)) if hasattr(mod, "specs") else []
        info = {}
        tb = time.time()
        for name, b in sb.build(specs).items():
            info[name] = {"path": b.path, "text": b.text,
                          "params": b.params}
            events["models built"] += 1
            if not b.ok:
                violations.append({
                    "case": {"build": name},
                    "message": "model %s could not be built: %s"
                               % (name, b.error)})
        tb = time.time() - tb
        if not violations and cases:
            mp = multiprocessing.get_context("fork")
            from concurrent.futures import ProcessPoolExecutor, \
                FIRST_COMPLETED, wait
            with ProcessPoolExecutor(
                    a.jobs, mp_context=mp, initializer=_init,
                    initargs=(sb.src, info, tier, modname, sb.dir)) as ex:
                todo, run = iter(cases), set()
                more = True
                while more or run:
                    while more and len(run) < 2 * a.jobs:
                        c = next(todo, None)
                        if c is None or time.time() - t0 > budget or \
                                len(violations) >= MAX_BAD:
                            if c is not None:
                                events["cases not run"] += 1
                            more = False
                            break
                        run.add(ex.submit(_run, c))
                    if not run:
                        break
                    done, run = wait(run, return_when=FIRST_COMPLETED)
                    for f in done:
                        (case, ev, ks, vi, sa, mx, da, fail,
                         dt) = f.result()
                        ncase += 1
                        slow.append((dt, case))
                        events.update(ev)
                        keys |= ks
                        if len(samples) < 4:
                            samples.extend(sa)
                        for k, v in mx.items():
                            if not v[0] <= maxima.get(k, (-1.,))[0]:
                                maxima[k] = v
                        data.extend(da)
                        take(case, vi)
                        if fail:
                            fails.append((case, fail))
        if hasattr(mod, "finish") and not violations and not a.replay:
            agg = {"events": events, "data": data, "info": info}
            take({"finish": True}, [(v, None) if isinstance(v, str) else v
                                    for v in mod.finish(ctx, agg)])
            samples.extend(agg.get("samples", [])[:3])
            keys |= set(agg.get("keys", ()))
        short = {k: (events[k], v) for k, v in mod.NEED.items()
                 if events[k] < v} if not a.replay else {}
        if violations:
            rc = 1
        elif fails:
            rc = 3
            print("INCONCLUSIVE property=%s the machinery failed" % cid)
            for c, f in fails[:3]:
                print("case", json.dumps(c)[:600])
                print(f)
        elif short:
            rc = 3
            print("INCONCLUSIVE property=%s too little observed: %s"
                  % (cid, short))
        else:
            rc = 0
    finally:
        sb.close()
    wall = time.time() - t0
    for key, text in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (cid, text))
    if not a.replay:
        ev = {
            "property": cid, "tier": tier, "seed": ctx.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": ncase, "distinct_nontrivial": len(keys),
                "rule": mod.RULE, "samples": samples[:5],
                "events": dict(sorted(events.items())),
                "largest_deviations": {k: {"value": v[0], "at": v[1]}
                                       for k, v in sorted(maxima.items())},
                "models": sorted(info) if not violations or info else [],
            },
            "assumptions": list(getattr(mod, "ASSUME", [])),
            "wall_s": round(wall, 2), "violations": len(violations)}
        with open(os.path.join(evdir, cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for i, v in enumerate(violations[:MAX_BAD]):
        path = os.path.join(evdir, "replay-%s-%d.json" % (cid, i))
        if a.replay:
            path = a.replay
        else:
            with open(path, "w") as f:
                json.dump({"check": cid, "seed": ctx.seed, "tier": tier,
                           "case": v["case"], "message": v["message"]}, f,
                          indent=1)
        print("VIOLATION property=%s replay=%s" % (cid, path))
        print("   ", v["message"][:1500])
        print("    case:", json.dumps(v["case"])[:500])
    print("%s %s seed=%d: %d cases, %d distinct, %d violations, %.1f s "
          "(building %.1f s)" % (cid, tier, ctx.seed, ncase, len(keys),
                                len(violations), wall,
                                tb if "tb" in dir() else 0))
    print("   events:", dict(sorted(events.items())))
    if maxima:
        print("   largest deviations:",
              {k: (round(v[0], 6), v[1]) for k, v in sorted(maxima.items())})
    if a.verbose:
        slow.sort(key=lambda x: -x[0])
        for dt, c in slow[:5]:
            print("   slow %.2f s" % dt, json.dumps(c)[:200])
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    try:
        status = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("INCONCLUSIVE the machinery failed")
        status = 3
    sys.stdout.flush()
    sys.exit(status)
