"""P36: optional packages are optional, and features that need a missing one say so."""
import json, os, subprocess, sys, tempfile
from vf import ambient, world
from vf.core import Check, require, rng_of

NOTENSOR = ("no torch", "torch does not load", "torch breaks on import", "required packages only")
NOSOG = ("no imagecodecs", "required packages only")
COMPILER = ("compiler refuses", "kernels fail", "second kernel fails", "late kernel fails", "no compiler support")
VARIANTS = NOTENSOR + ("no imagecodecs", "everything") + COMPILER


class CHECK(Check):
    rule = "every public operation run in interpreters where an optional package (torch, the WebP decoder, the kernel compiler, or every package but the required ones) is absent, fails to import or fails when used, against the full installation; refusals of the features that need it; distinct by (variant, operation, K, size)"
    required = {"children": 11, "results": 2500, "refusals": 10, "features": 1000}
    n_quick, n_thorough = 5, 240

    def setup(self, ctx, tier):
        self.ops = dict(world.ops(), **ambient.more_ops())

    def directed(self, tier):
        for v in VARIANTS:
            yield {"v": v, "spec": [(0, 0), (300, 3), (41, 0)] if v not in COMPILER else [(300, 3), (513, 15)]}

    def random_case(self, i, seed, tier):
        r = rng_of("P36", seed, i)
        return {"v": VARIANTS[i % len(VARIANTS)], "spec": [(int(r.choice([0, 1, 2, 40, 256, 257, 700, 1500])), int(r.choice([0, 3, 8, 15]))) for _ in range(2)]}

    def run(self, c, ctx):
        v, spec = c["v"], list(dict.fromkeys(tuple(x) for x in c["spec"]))
        d = os.path.dirname(ctx.path())
        names = [o for o in sorted(self.ops) if v not in NOTENSOR or o not in world.TENSOR_OPS]
        want, args = {}, []
        for n, k in spec:
            w = world.World(rng_of("child", n, k, 5), n, k, tempfile.mkdtemp(dir=d))
            for o in names:
                want[f"{o}/{n}/{k}"] = ambient.outcome(self.ops[o], w)
            args += [str(n), str(k), "5"]
        out = os.path.join(d, "out.json")
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=root)
        r = subprocess.run([sys.executable, "-m", "vf.optional_child", out, v] + args, env=env, cwd=d, capture_output=True, timeout=280)
        require(r.returncode == 0, lambda: f"[{v}] the library does not work: {r.stderr[-900:].decode('utf8', 'replace')}")
        require(not r.stdout, lambda: f"[{v}] something was printed: {r.stdout[:200]}")
        with open(out, encoding="utf-8") as f:
            got = json.load(f)
        require(not got.pop("star"), f"[{v}] names of the package are missing")
        loaded = got.pop("loaded")
        require(not set(loaded) & {"torch", "imagecodecs"}, f"[{v}] importing the package alone loads {loaded}")
        at = got.pop("attribute")
        require(at and "AttributeError" in at[0], f"[{v}] an unknown name of the package gives {at}")
        text = got.pop("text")
        for what, x in got.pop("refusals", {}).items():
            require(x and ("ImportError" in x[0] or v == "torch breaks on import" and "RuntimeError" in x[0]), f"[{v}] {what} gives {x} instead of ImportError")
            require("torch" in x[1].lower(), f"[{v}] {what} does not name the missing package: {x[1]!r}")
            ctx.count("refusals")
        require(got.pop("TORCH_AVAILABLE", False) is False, f"[{v}] torch is reported as available")
        require(set(got) == set(want), "internal: other operations in the child")
        for x in want:
            o = x.split("/")[0]
            if v in NOSOG and o in world.SOG_OPS and got[x] != want[x]:
                t = text.get(x)
                require(t and "ImportError" in t[0] and "imagecodecs" in t[1], f"[{v}] {x} gives {got[x][:80]} ({t}) instead of an ImportError naming imagecodecs")
                ctx.count("refusals")
            else:
                require(got[x] == want[x], lambda: f"[{v}] {x} gives {got[x][:90]} instead of {want[x][:90]}")
            ctx.count("results")
            ctx.feat(v, *x.split("/"))
        ctx.count("children")
        ctx.sample({"variant": v, "operations": len(want), "scenes": spec})
