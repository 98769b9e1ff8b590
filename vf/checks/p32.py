"""P32: no operation depends on, or changes, process-wide state that is not its own."""
import contextlib, json, os, subprocess, sys, tempfile
import numpy as np
from vf import ambient, gen, world
from vf.core import Check, require, rng_of, bucket

ENVS = {"hash seed 1": {"PYTHONHASHSEED": "1"}, "hash seed 77": {"PYTHONHASHSEED": "77"}, "hash seed 4000000000": {"PYTHONHASHSEED": "4000000000"}, "-O": {"PYTHONOPTIMIZE": "1"}, "-OO": {"PYTHONOPTIMIZE": "2"},
        "C locale": {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, "time zone": {"TZ": "Pacific/Apia"}, "one kernel thread": {"NUMBA_NUM_THREADS": "1"},
        "development mode": {"PYTHONDEVMODE": "1"}, "workqueue": {"NUMBA_THREADING_LAYER": "workqueue"}, "one torch thread": {"OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"},
        "no home": {"HOME": "/nonexistent"}, "perturbed malloc": {"MALLOC_PERTURB_": "165"}, "utf8 mode": {"PYTHONUTF8": "1"}}


class CHECK(Check):
    rule = "every public operation (and refusal) under 20 process-wide settings in one process and under 14 interpreter environments, compared with the default; a fingerprint of 25 kinds of process-wide state around every call; distinct by (setting, operation)"
    required = {"calls": 8000, "fingerprints": 8000, "child_results": 2500, "refusals": 800, "features": 2500}
    n_quick, n_thorough = 48, 2500

    def setup(self, ctx, tier):
        global gsply
        import gsply
        self.ops = dict(world.ops(), **ambient.more_ops())
        w = world.World(rng_of("warm32"), 300, 3, os.path.dirname(ctx.path()))
        for f in self.ops.values():
            ambient.outcome(f, w)

    def directed(self, tier):
        for n, k in ((300, 3), (0, 0), (41, 0)) + (((1, 8), (513, 15)) if tier == "thorough" else ()):
            for s in ["none"] + ambient.SETTINGS:
                yield {"k": "set", "s": [s], "n": n, "K": k}
        for v in ENVS:
            for spec in ([(0, 0), (300, 3), (40, 0)],) + (([(513, 15), (7, 8), (1, 3)],) if tier == "thorough" else ()):
                yield {"k": "env", "v": v, "spec": spec}

    def run(self, c, ctx):
        return self.env(c, ctx) if c["k"] == "env" else self.inproc(c, ctx)

    def inproc(self, c, ctx):
        rng = rng_of("P32", c)
        names = sorted(self.ops)
        if c["k"] == "set":
            n, k, todo = c["n"], c["K"], [(o, c["s"]) for o in names]
        else:
            n, k = int(rng.choice([0, 1, 5, 256, 300, 1000, 3000])), gen.pick_k(rng)
            st = [str(x) for x in rng.choice(ambient.SETTINGS, int(rng.choice([2, 3, 5])), replace=False)]
            if "gc always" in st and "gc never" in st:
                st.remove("gc never")
            todo = [(str(o), st) for o in rng.choice(names, 40)]
        d = os.path.dirname(ctx.path())
        w = world.World(rng, n, k, d)
        for o, st in todo:
            f = self.ops[o]
            base = ambient.outcome(f, w)
            what = f"{o} on {n} Gaussians, K={k}"
            with contextlib.ExitStack() as es:
                for s in st:
                    es.enter_context(ambient.setting(s, rng, d))
                a = ambient.fingerprint()
                got = ambient.outcome(f, w)
                df = ambient.differences(a, ambient.fingerprint())
            require(not df, lambda: f"{what} changed process-wide state while [{', '.join(st)}]: {', '.join(df)}")
            require(got == base, lambda: f"{what} gave another outcome while [{', '.join(st)}]: {got[:90]} instead of {base[:90]}")
            # and afterwards, without the setting: nothing of it has been kept
            after = ambient.outcome(f, w)
            require(after == base, lambda: f"{what}: another outcome after a call while [{', '.join(st)}]: {after[:90]} instead of {base[:90]}")
            ctx.count("calls", 3)
            ctx.count("fingerprints", 1)
            ctx.count("refusals", base.startswith("refused"))
            ctx.feat("+".join(sorted(st)) if len(st) == 1 else len(st), o, bucket(n))

    def env(self, c, ctx):
        v, spec = c["v"], [tuple(x) for x in c["spec"]]
        d = os.path.dirname(ctx.path())
        want = {}
        args = []
        for n, k in spec:
            w = world.World(rng_of("child", n, k, 5), n, k, tempfile.mkdtemp(dir=d))
            for o in sorted(self.ops):
                want[f"{o}/{n}/{k}"] = ambient.outcome(self.ops[o], w)
            args += [str(n), str(k), "5"]
        out = os.path.join(d, "out.json")
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=root)
        env.update(ENVS[v])
        r = subprocess.run([sys.executable, "-m", "vf.ambient_child", out] + args, env=env, cwd=d, capture_output=True, timeout=280)
        require(r.returncode == 0, lambda: f"[{v}] the interpreter ended with {r.returncode}: {r.stderr[-600:].decode('utf8', 'replace')}")
        require(not r.stdout, lambda: f"[{v}] something was printed: {r.stdout[:200]}")
        with open(out, encoding="utf-8") as f:
            got = json.load(f)
        ch = got.pop("import changes")
        require(not ch, lambda: f"importing the library changed process-wide state: {', '.join(ch)}")
        require(set(got) == set(want), "internal: other operations in the child")
        bad = [x for x in want if want[x] != got[x]]
        require(not bad, lambda: f"[{v}] {bad[0]} (and {len(bad) - 1} others) gave {got[bad[0]][:90]} instead of {want[bad[0]][:90]}")
        ctx.count("child_results", len(want))
        for x in want:
            ctx.feat("env", v, x.split("/")[0])
        ctx.sample({"environment": v, "operations": len(want)})
