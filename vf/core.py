"""Case loop, verdict bookkeeping and common monitors."""
import hashlib, json, os, shutil, sys, time, traceback
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    pass


class Ctx:
    """What one worker has observed so far."""

    def __init__(self, tmp):
        self.counters, self.features, self.samples, self.sets = {}, set(), [], {}
        self.tmp = tmp
        self._n = 0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maxi(self, name, v):
        k = "max:" + name
        self.counters[k] = max(self.counters.get(k, 0), v)

    def feat(self, *sig):
        self.features.add("|".join(map(str, sig)))

    def seen(self, name, item):
        self.sets.setdefault(name, set()).add(str(item))

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def path(self, name="x.ply"):
        """A fresh path in a fresh directory of this worker's scratch space."""
        self._n += 1
        d = os.path.join(self.tmp, f"d{self._n}")
        os.makedirs(d)
        return os.path.join(d, name)


class Check:
    level = "exploration"
    rule = ""
    assumptions = []
    required = {}      # counter -> minimum over all shards (quick)
    n_quick = 200      # random cases in total over all shards
    n_thorough = 4000
    max_s = {"quick": 300, "thorough": 1500}

    def setup(self, ctx, tier):
        pass

    def directed(self, tier):
        return []

    def random_case(self, i, seed, tier):
        return {"k": "random", "s": seed * 1000003 + i}

    def run(self, case, ctx):
        raise NotImplementedError

    def finish(self, ctx, tier):
        pass


def fail(msg, key=None):
    raise Violation(msg, key)


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def rng_of(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return np.random.default_rng(np.frombuffer(h[:16], np.uint32).tolist())


def bucket(n):
    for b in (0, 1, 2, 16, 255, 256, 257, 511, 512, 513, 1000, 5000, 20000, 100000, 1000000):
        if n <= b:
            return b
    return "big"


def run_worker(check, pid, tier, seed, shard, nshards, outdir, replay):
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    known_keys = {e["key"] for e in kf.get("findings", []) if e["property"] == pid}
    mode = os.environ.get("VF_MODE", "")
    tmp = os.path.join(outdir, "scratch")
    os.makedirs(tmp, exist_ok=True)
    ctx = Ctx(tmp)
    ctx.mode, ctx.tier, ctx.seed = mode, tier, seed
    journal = os.path.join(outdir, "journal.json")
    fd = os.open(journal, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)

    def note(case):
        b = json.dumps(case, default=str).encode()
        os.ftruncate(fd, 0)
        os.pwrite(fd, b, 0)

    note({"k": "setup", "_mode": mode})
    viols, known, evals = [], {}, 0
    t0 = time.time()

    def one(case):
        nonlocal evals
        evals += 1
        if mode:
            case = dict(case, _mode=mode)
        note(case)
        before = ctx._n
        try:
            check.run(case, ctx)
        except Inconclusive:
            raise
        except Violation as e:
            v = {"case": case, "message": f"{pid}: {e}", "key": e.key or ""}
        except (MemoryError, KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            v = {"case": case, "message": f"{pid}: unexpected {type(e).__name__} on well-formed use: {e}\n{tb[-1200:]}", "key": "exception"}
        else:
            v = None
        for k in range(before + 1, ctx._n + 1):
            shutil.rmtree(os.path.join(tmp, f"d{k}"), ignore_errors=True)
        if v is not None:
            if v["key"] and v["key"] in known_keys:
                known.setdefault(v["key"], v["message"])
            else:
                viols.append(v)

    if replay:
        case = json.load(open(replay))["case"]
        check.setup(ctx, tier)
        case.pop("_mode", None)
        one(case)
    else:
        check.setup(ctx, tier)
        cap = check.max_s[tier]
        stopped = False
        for i, case in enumerate(check.directed(tier)):
            if i % nshards == shard:
                one(case)
                if len(viols) >= 3 or time.time() - t0 > cap:
                    stopped = True
                    break
        total = check.n_quick if tier == "quick" else check.n_thorough
        i = shard
        while not stopped and i < total:
            one(check.random_case(i, seed, tier))
            i += nshards
            if len(viols) >= 3 or time.time() - t0 > cap:
                break
        try:
            check.finish(ctx, tier)
        except Violation as e:
            viols.append({"case": {"k": "finish"}, "message": f"{pid}: {e}", "key": e.key or ""})
    res = {"evaluations": evals, "counters": ctx.counters, "features": sorted(ctx.features), "samples": ctx.samples,
           "violations": viols, "known": known, "rule": check.rule, "required": check.required, "level": check.level,
           "assumptions": check.assumptions, "sets": {k: sorted(v) for k, v in ctx.sets.items()}}
    with open(os.path.join(outdir, "result.json.tmp"), "w") as f:
        json.dump(res, f, default=str)
    os.replace(os.path.join(outdir, "result.json.tmp"), os.path.join(outdir, "result.json"))
    shutil.rmtree(tmp, ignore_errors=True)
