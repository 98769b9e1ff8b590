"""Runs the operations in an interpreter where some optional package is absent or does not work.

    python -m vf.optional_child OUT.json VARIANT [N K SEED]...
"""
import importlib.abc, json, os, sys, tempfile

sys.path.insert(0, os.path.join(os.environ.get("VF_REPO", "/repo"), "src"))

CORE = {"numpy", "numba", "llvmlite", "gsply", "vf", "tbb"} | set(sys.stdlib_module_names)


class Refuse(importlib.abc.MetaPathFinder):
    """Refuses imports for which wanted(name) gives an exception."""

    def __init__(self, wanted):
        self.wanted, self.seen = wanted, []

    def find_spec(self, name, path=None, target=None):
        e = self.wanted(name)
        if e is not None:
            self.seen.append(name)
            raise e
        return None


def top(name):
    return name.split(".")[0]


def missing(name):
    return ModuleNotFoundError(f"No module named {name!r}", name=name)


VARIANTS = {
    "no torch": lambda n: missing(n) if top(n) == "torch" else None,
    "torch does not load": lambda n: ImportError("libtorch_cpu.so: cannot open shared object file") if top(n) == "torch" else None,
    "torch breaks on import": lambda n: RuntimeError("operator torchvision::nms does not exist") if top(n) == "torch" else None,
    "no imagecodecs": lambda n: missing(n) if top(n) == "imagecodecs" else None,
    "required packages only": lambda n: missing(n) if top(n) not in CORE else None,
    "no compiler support": lambda n: missing(n) if n.startswith("torch._dynamo") else None,
    "everything": lambda n: None,
}


def break_compiler(kind):
    """torch.compile that cannot compile, or whose kernels fail when called."""
    import torch
    calls = [0]

    def compile(fn=None, **kw):
        if kind == "compiler refuses":
            raise RuntimeError("no compiler found")

        def g(*a):
            calls[0] += 1
            if kind == "kernels fail" or calls[0] == {"second kernel fails": 2, "late kernel fails": 11}[kind]:
                raise RuntimeError("cl.exe not found")
            return fn(*a)
        return g
    torch.compile = compile
    return calls


def refusal(f):
    """How f() refuses: [names of the exception's classes, its text]; None if it does not."""
    try:
        f()
    except BaseException as e:
        return [[c.__name__ for c in type(e).__mro__], str(e)]
    return None


def main():
    out, variant = sys.argv[1:3]
    spec = sys.argv[3:]
    from vf import ambient, sog, world      # bring their own packages in before the block
    from vf.core import rng_of
    import numba
    compiler = variant not in VARIANTS
    sog.webp(sog.tex(rng_of("x"), 5))
    res, gone = {}, {}
    if not compiler:
        r = Refuse(VARIANTS[variant])
        for n in [n for n in sys.modules if top(n) not in CORE and VARIANTS[variant](n) is not None and not n.startswith("__")]:
            gone[n] = sys.modules.pop(n)
        sys.meta_path.insert(0, r)
        encode = sog.webp

        def webp(a):                          # the texture encoder of these tests may use its own packages
            back = {n: m for n, m in gone.items() if n not in sys.modules}
            sys.modules.update(back)
            try:
                return encode(a)
            finally:
                for n in back:
                    del sys.modules[n]
        sog.webp = webp
    else:
        break_compiler(variant)
    before = {top(n) for n in sys.modules}
    import gsply
    res["loaded"] = sorted({top(n) for n in sys.modules} - before - {"gsply", "numpy", "numba", "llvmlite"} - set(sys.stdlib_module_names))
    ns = {}
    exec("from gsply import *", ns)
    res["star"] = sorted(n for n in gsply.__all__ if n not in ns)
    tensors = variant in ("no imagecodecs", "everything", "no compiler support") or compiler
    if not tensors:
        res["refusals"] = {"gsply.GSTensor": refusal(lambda: gsply.GSTensor), "gsply.plyread_gpu": refusal(lambda: gsply.plyread_gpu), "gsply.plywrite_gpu": refusal(lambda: gsply.plywrite_gpu),
                           "again gsply.GSTensor": refusal(lambda: gsply.GSTensor), "from gsply import GSTensor": refusal(lambda: exec("from gsply import GSTensor", {}))}
        import gsply.torch
        res["TORCH_AVAILABLE"] = gsply.torch.TORCH_AVAILABLE
    res["attribute"] = refusal(lambda: gsply.no_such_name)
    ops = dict(world.ops(tensors), **ambient.more_ops(tensors))
    text = {}
    with tempfile.TemporaryDirectory() as d:
        for i in range(0, len(spec), 3):
            n, k, s = map(int, spec[i:i + 3])
            w = world.World(rng_of("child", n, k, s), n, k, tempfile.mkdtemp(dir=d), tensors=tensors)
            for o in sorted(ops):
                res[f"{o}/{n}/{k}"] = ambient.outcome(ops[o], w)
                if res[f"{o}/{n}/{k}"].startswith("refused") and o in world.SOG_OPS:
                    text[f"{o}/{n}/{k}"] = refusal(lambda: ops[o](w))
    res["text"] = text
    with open(out, "w", encoding="utf-8") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
