"""P25: many threads get exactly the results each would get alone; any kernel thread count; deterministic."""
import hashlib, os, random, sys, threading, time
import numpy as np
from vf import gen, hold
from vf.world import World, ops, digest
from vf.core import Check, require, fail, rng_of, bucket

JITTER = {"p": 0.0, "log": None}


def install_jitter(root):
    """At every executed line of the code under test a thread may give up the processor; the switches seen are recorded."""
    mon = sys.monitoring
    mon.use_tool_id(3, "vf-jitter")
    root = os.path.realpath(root) + os.sep
    ours = {}
    rnd = random.Random(1)
    last = [0]

    def line(code, no):
        o = ours.get(code)
        if o is None:
            o = ours[code] = os.path.realpath(code.co_filename).startswith(root)
        if not o:
            return mon.DISABLE
        log = JITTER["log"]
        if log is None:
            return
        t = threading.get_ident()
        if t != last[0]:
            last[0] = t
            log.append((t, code.co_name, no))
        if rnd.random() < JITTER["p"]:
            time.sleep(0 if rnd.random() < .5 else rnd.random() * 3e-4)
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


class CHECK(Check):
    rule = "each result of a concurrent batch digested twice (at once and after the batch) against the digest of the same call alone; injected yields at source lines; distinct by (operation, shared or own scene, threads, kernel threads, size bucket)"
    required = {"concurrent_calls": 6000, "sequential_calls": 1200, "batches": 60, "thread_switches": 20000, "distinct_interleavings": 55, "features": 350}
    n_quick, n_thorough = 110, 3000
    max_s = {"quick": 240, "thorough": 1500}

    def setup(self, ctx, tier):
        global gsply, numba
        import gsply, numba
        self.ops = ops()
        install_jitter(os.path.join(os.environ.get("VF_REPO", "/repo"), "src"))
        self.maxk = numba.config.NUMBA_NUM_THREADS
        rng = rng_of("warm25")
        w = World(rng, 300, 3, os.path.dirname(ctx.path()))
        for f in self.ops.values():           # compile
            f(w)

    def directed(self, tier):
        for op in sorted(ops()):
            yield {"k": "det", "op": op}
        for op in ("plyread_packed", "from_bytes", "to_bytes", "write_packed", "write", "gpu_codec", "sog_bytes", "denormalize"):
            yield {"k": "same", "op": op}

    def alone(self, w, op, ctx):
        ctx.count("sequential_calls")
        return digest(self.ops[op](w))

    def run(self, c, ctx):
        rng = rng_of("P25", c)
        if c["k"] == "det":
            return self.det(rng, c["op"], ctx)
        n = int(rng.choice([1, 2, 255, 256, 257, 600, 2000, 20000, 70001], p=[.05, .05, .1, .1, .1, .25, .25, .07, .03]))
        k = gen.pick_k(rng)
        T = int(rng.choice([2, 3, 4, 8, 16]))
        shared = bool(rng.random() < .5)
        worlds = []
        for i in range(1 if shared else T):
            d = os.path.dirname(ctx.path())
            worlds.append(World(rng, n if shared or rng.random() < .5 else max(1, n + int(rng.integers(-3, 4))), k if rng.random() < .7 else gen.pick_k(rng), d))
        if not shared and rng.random() < .5:            # all write into one directory
            common = os.path.dirname(ctx.path())
            for i, w in enumerate(worlds):
                w.dir = common
                w.file = i * 100000
        names = sorted(self.ops)
        pool = [c["op"]] if c["k"] == "same" else [str(x) for x in rng.choice(names, int(rng.choice([1, 2, 6, 20])), replace=False)]
        base = [{op: self.alone(w, op, ctx) for op in pool} for w in worlds]
        plans = [[str(x) for x in rng.choice(pool, int(rng.integers(4, 14)))] for _ in range(T)]
        kern = [int(rng.integers(1, self.maxk + 1)) for _ in range(T)]
        what = f"{T} threads on {'one scene' if shared else 'own scenes'}, n={n} K={k}: "
        bar = threading.Barrier(T)
        errs, held = [], []
        before = [hold.snapshot(w.a) for w in worlds]

        def go(i):
            w, exp = worlds[0 if shared else i], base[0 if shared else i]
            try:
                numba.set_num_threads(kern[i])
                bar.wait(60)
                for op in plans[i]:
                    r = self.ops[op](w)
                    h = digest(r)
                    if h != exp[op]:
                        errs.append(f"{op} gave another result than alone (thread {i} of {T}, {kern[i]} kernel threads)")
                        return
                    held.append((op, r, h))
            except BaseException as e:
                errs.append(f"{plans[i]}: {type(e).__name__}: {e}")
        old = sys.getswitchinterval()
        JITTER["log"], JITTER["p"] = [], float(rng.choice([0, .02, .2]))
        sys.setswitchinterval(float(rng.choice([1e-6, 1e-4, .005])))
        try:
            ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(T)]
            for t in ts:
                t.start()
            dl = time.time() + 100
            for t in ts:
                t.join(max(0, dl - time.time()))
            hung = [i for i, t in enumerate(ts) if t.is_alive()]
        finally:
            sys.setswitchinterval(old)
            log, JITTER["log"] = JITTER["log"], None
        require(not hung, lambda: what + f"threads {hung} did not finish")
        require(not errs, lambda: what + errs[0])
        for op, r, h in held:
            require(digest(r) == h, lambda: what + f"the result of {op} changed after it was returned")
        for w, b in zip(worlds, before):
            m = hold.same_snapshot(hold.snapshot(w.a), b)
            require(not m, lambda: what + "the shared scene changed: " + m)
        ctx.count("batches")
        ctx.count("concurrent_calls", len(held))
        ctx.count("thread_switches", len(log))
        ids = {}
        sig = hashlib.sha1(repr([(ids.setdefault(t, len(ids)), a, b) for t, a, b in log]).encode()).hexdigest()
        if len(ids) > 1:
            ctx.count("distinct_interleavings", sig not in ctx.sets.get("interleavings", ()))
            ctx.seen("interleavings", sig)
        for op in pool:
            ctx.feat(op, shared, T, bucket(n))
        ctx.sample({"threads": T, "shared": shared, "n": n, "K": k, "kernel_threads": kern, "plan": plans[0]})

    def det(self, rng, op, ctx):
        """Repeating an operation with any kernel thread count gives the same bytes."""
        for n in (1, 257, 1000, 50000 if "sog" not in op else 3000):
            w = World(rng, n, gen.pick_k(rng), os.path.dirname(ctx.path()))
            first = None
            for t in (self.maxk, 1, 2, 3, self.maxk):
                numba.set_num_threads(t)
                h = self.alone(w, op, ctx)
                require(first in (None, h), lambda: f"{op}, n={n} K={w.k}: another result with {t} kernel threads")
                first = h
                ctx.feat("det", op, t, bucket(n))
            numba.set_num_threads(self.maxk)
